#!/usr/bin/env python3
"""Generates C21.spec: exactly one response per request, on its channel, with its request id and handle; one result
per operation; operation limits."""
import os
# handler : request : response : operations field : results field
H="""CloseSession:CloseSessionRequest:CloseSessionResponse::
Cancel:CancelRequest:CancelResponse::
Browse:BrowseRequest:BrowseResponse:NodesToBrowse:Results:MaxNodesPerBrowse
BrowseNext:BrowseNextRequest:BrowseNextResponse:ContinuationPoints:Results:
TranslateBrowsePathsToNodeIds:TranslateBrowsePathsToNodeIDsRequest:TranslateBrowsePathsToNodeIDsResponse:BrowsePaths:Results:MaxNodesPerTranslateBrowsePathsToNodeIds
RegisterNodes:RegisterNodesRequest:RegisterNodesResponse:NodesToRegister:RegisteredNodeIDs:
UnregisterNodes:UnregisterNodesRequest:UnregisterNodesResponse:::
Read:ReadRequest:ReadResponse:NodesToRead:Results:
Write:WriteRequest:WriteResponse:NodesToWrite:Results:
HistoryRead:HistoryReadRequest:HistoryReadResponse:::
Call:CallRequest:CallResponse:MethodsToCall:Results:
CreateMonitoredItems:CreateMonitoredItemsRequest:CreateMonitoredItemsResponse:ItemsToCreate:Results:
ModifyMonitoredItems:ModifyMonitoredItemsRequest:ModifyMonitoredItemsResponse:ItemsToModify:Results:
SetMonitoringMode:SetMonitoringModeRequest:SetMonitoringModeResponse:MonitoredItemIDs:Results:
SetTriggering:SetTriggeringRequest:SetTriggeringResponse:::
DeleteMonitoredItems:DeleteMonitoredItemsRequest:DeleteMonitoredItemsResponse:MonitoredItemIDs:Results:
CreateSubscription:CreateSubscriptionRequest:CreateSubscriptionResponse:::
ModifySubscription:ModifySubscriptionRequest:ModifySubscriptionResponse:::
SetPublishingMode:SetPublishingModeRequest:SetPublishingModeResponse:SubscriptionIDs:Results:
DeleteSubscriptions:DeleteSubscriptionsRequest:DeleteSubscriptionsResponse:SubscriptionIDs:Results:
Republish:RepublishRequest:RepublishResponse:::
CreateSession:CreateSessionRequest:CreateSessionResponse::
ActivateSession:ActivateSessionRequest:ActivateSessionResponse::
findServers:FindServersRequest:FindServersResponse::
getEndpoints:GetEndpointsRequest:GetEndpointsResponse::"""
out=["""# Generated by gen_c21.py. One response per request.
package server
ghost nresp int
ghost naborted int
ghost drained int
ghost subs int
ghost sess int
ghost good int
func (*server.serverSecureChannel).Write(ch, r, id) (err)
  trusted
  modifies G.nresp[ch], G.good[0]
  ensures G.nresp[ch] == old(G.nresp[ch]) + ite(ufb(dequeued, base(ch), id), 0, 1)
  ensures G.good[0] == ite(is(r, *ua.DeleteSubscriptionsResponse), 1, old(G.good[0]))
func (*server.serverSecureChannel).Abort(ch, reason, message) (err)
  trusted
  modifies G.naborted[ch]
  ensures G.naborted[ch] == old(G.naborted[ch]) + 1
# what the browse tasks do is not followed; they can change neither the request nor the results' length, nor write a response
pure opaquetasks:(*server.Server).handleBrowse
# publish requests taken from a session's queue are answered on their own channel with their own request id
func (*server.Session).removePublishRequest(s) (c, id, rq, res, ok, err)
  trusted
  modifies G.drained[s]
  ensures ok ==> c != nil && rq != nil && ufb(dequeued, base(c), id) && uf(dequeuedHandle, base(c), id) == rq.RequestHeader.RequestHandle
  ensures ok ==> err == nil
  ensures err == nil && !ok ==> G.drained[s] == 1
func server.selectTimestamps(results, mode) (r) [C21]
  noframe
  ensures same: len(r) == len(results)
func (*server.SessionManager).Get(m, tok) (s, ok)
  trusted
  modifies G.sess[0]
  ensures ok ==> s != nil && G.sess[0] == base(s)
  ensures !ok ==> s == nil
func (*server.SubscriptionManager).GetBySession(m, s) (r)
  trusted
  modifies G.subs[s]
  ensures len(r) == G.subs[s] && len(r) >= 0
func (*server.Session).SecureChannelId(s) (r)
  trusted
  ensures r == uf(channelOf, base(s))
func (*server.SessionManager).Delete(m, s)
  trusted
  modifies everything
  ensures G.good[0] == old(G.good[0])
noinline (*server.Server).readValue (*server.Server).writeValue (*server.Server).validateIndexRange (*server.Server).follow (*server.Server).target server.NewSubscription server.NewDataChangeMonitoredItem server.NewEventMonitoredItem
noinline (*server.NamespaceManager).FindNode (*server.NamespaceManager).IsSubtype (*server.NamespaceManager).FindComponent (*server.SubscriptionManager).Get (*server.SubscriptionManager).Add (*server.SubscriptionManager).Delete (*server.SubscriptionManager).Len
noinline (*server.Session).addBrowseContinuationPoint (*server.Session).removeBrowseContinuationPoint (*server.Session).addPublishRequest
noinline (*server.Subscription).Delete (*server.Subscription).Modify (*server.Subscription).FindItem (*server.Subscription).AppendItem (*server.Subscription).DeleteItem (*server.Subscription).acknowledge (*server.Subscription).handleLatePublishRequest (*server.Subscription).SetPublishingMode (*server.Subscription).startPublishing
noinline server.IsUserPermitted (*server.NamespaceManager).FindVariantType (*server.NamespaceManager).FindSuperType (*server.VariableNode).UserRolePermissions (*server.ObjectNode).UserRolePermissions (*server.VariableNode).UserAccessLevel (*server.MethodNode).UserExecutable (*server.MethodNode).UserRolePermissions ua.ToNodeID
noinline (*server.MethodNode).callMethodHandler (*server.Server).Endpoints (*server.Server).buildEndpointDescriptions server.NewSession (*server.SessionManager).Add (*server.Session).SetUserIdentity (*server.Session).SetSecureChannelId (*server.Session).SetUserRoles (*server.serverSecureChannel).LocalEndpoint server.getNextNonce (*server.Server).NamespaceUris (*server.Server).ServerCapabilities
"""]
for l in H.split("\n"):
    f=(l.split(":")+[""]*6)[:6]
    h,req,resp,ops,res,lim=f
    W="  atcall (*server.serverSecureChannel).Write(c, r, id) :: "
    fn=h if h[0].islower() else "handle"+h
    o=[f"func (*server.Server).{fn}(srv, ch, requestid, req) (err) [C21]","  noframe","  invtimeout 200","  owned req",
    "  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && G.nresp[ch] == 0 && G.naborted[ch] == 0 && !ufb(dequeued, base(ch), requestid)",
    W+f"channel: c == ch && id == requestid && G.nresp[ch] == 0 || ufb(dequeued, base(c), id) && is(r, *ua.ServiceFault)",
    W+f"kind: is(r, *ua.ServiceFault) || is(r, *ua.{resp})",
    W+f"handle: ite(is(r, *ua.ServiceFault), as(r, *ua.ServiceFault).ResponseHeader.RequestHandle, as(r, *ua.{resp}).ResponseHeader.RequestHandle) == ite(ufb(dequeued, base(c), id), uf(dequeuedHandle, base(c), id), old(req.RequestHeader.RequestHandle))",
    *([] if h=="ActivateSession" else [W+f"fault: is(r, *ua.ServiceFault) ==> as(r, *ua.ServiceFault).ResponseHeader.ServiceResult >= 0x80000000"]),
    *([] if h=="HistoryRead" else [W+f"good: is(r, *ua.{resp}) ==> as(r, *ua.{resp}).ResponseHeader.ServiceResult == 0"]),
    *(["  ensures one: err == nil ==> G.nresp[ch] + G.naborted[ch] == 1","  ensures most: G.nresp[ch] + G.naborted[ch] <= 1"] if h in ("CreateSession","ActivateSession") else
    ["  ensures one: G.nresp[ch] + G.naborted[ch] == 1","  ensures answered: !old(ch.discoveryOnly) ==> G.nresp[ch] == 1"])]
    if h in ("DeleteSubscriptions","CloseSession"):
        o+=["  invariant G.nresp[ch] == "+("1" if h=="DeleteSubscriptions" else "0")]
    if h=="DeleteSubscriptions":
        o+=["  requires G.good[0] == 0","  ensures drained: err == nil && G.good[0] == 1 ==> G.subs[G.sess[0]] > 0 || G.drained[G.sess[0]] == 1"]
    if h=="CloseSession":
        o+=["  atcall (*server.SessionManager).Delete(m, s) :: drained: uf(channelOf, base(s)) == 0 || G.drained[s] == 1"]
    if ops:
        o+=[W+f"results: is(r, *ua.{resp}) ==> len(as(r, *ua.{resp}).{res}) == old(len(req.{ops}))"]
    out.append("\n".join(o)+"\n")
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"C21.spec"),"w").write("\n".join(out))
# dispatch: every request of a supported service reaches its own handler once, with its own channel and id
D=[(l.split(":")[0],l.split(":")[1]) for l in H.split("\n") if l[0].isupper()]+[("Publish","PublishRequest")]
o=["# Generated by gen_c21.py. Dispatch of requests to the handlers.","package server","ghost ndisp int"]
A=[]
def add(name,recv,t):
    ps="srv, ch, id, req" if recv=="Server" else "ch, id, req"
    o.append(f"func (*server.{recv}).{name}({ps}) (err)\n  trusted\n  modifies G.ndisp[0]\n  ensures G.ndisp[0] == old(G.ndisp[0]) + 1")
    q="s1, c1, id1, rq" if recv=="Server" else "c1, id1, rq"
    A.append(f"  atcall (*server.{recv}).{name}({q}) :: route: c1 == ch && id1 == requestid && is(req, *ua.{t}) && as(req, *ua.{t}) == rq && G.ndisp[0] == 0"+(" && s1 == srv" if recv=="Server" else ""))
for h,t in D: add("handle"+h,"Server",t)
add("findServers","Server","FindServersRequest"); add("getEndpoints","Server","GetEndpointsRequest")
add("handleOpenSecureChannel","serverSecureChannel","OpenSecureChannelRequest"); add("handleCloseSecureChannel","serverSecureChannel","CloseSecureChannelRequest")
T=[t for _,t in D]+["FindServersRequest","GetEndpointsRequest","OpenSecureChannelRequest","CloseSecureChannelRequest"]
o.append("""func (*server.serverSecureChannel).Write(ch, r, id) (err)
  trusted
  modifies G.ndisp[0]
  ensures G.ndisp[0] == old(G.ndisp[0]) + 1
func invoke ua.ServiceRequest.Header(r) (h)
  trusted
  ensures h != nil && h.RequestHandle == uf(handleOf, payload(r))""")
o.append("func (*server.Server).handleRequest(srv, ch, req, requestid) (err) [C21]\n  noframe\n  requires srv != nil && ch != nil && G.ndisp[0] == 0 && payload(req) != 0\n"+"\n".join(A)+"""
  atcall (*server.serverSecureChannel).Write(c, r, id) :: unsupported: c == ch && id == requestid && G.ndisp[0] == 0 && is(r, *ua.ServiceFault) && as(r, *ua.ServiceFault).ResponseHeader.ServiceResult == 0x800b0000 && as(r, *ua.ServiceFault).ResponseHeader.RequestHandle == uf(handleOf, payload(req))
  atcall (*server.serverSecureChannel).Write(c, r, id) :: supported: """+" && ".join(f"!is(req, *ua.{t})" for t in T)+"""
  ensures one: G.ndisp[0] == 1
""")
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"C21_dispatch.spec"),"w").write("\n".join(o))
