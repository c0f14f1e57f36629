# Generated by gen_c21.py. One response per request.
package server
ghost nresp int
ghost naborted int
ghost drained int
ghost subs int
ghost sess int
ghost good int
func (*server.serverSecureChannel).Write(ch, r, id) (err)
  trusted
  modifies G.nresp[ch], G.good[0]
  ensures G.nresp[ch] == old(G.nresp[ch]) + ite(ufb(dequeued, base(ch), id), 0, 1)
  ensures G.good[0] == ite(is(r, *ua.DeleteSubscriptionsResponse), 1, old(G.good[0]))
func (*server.serverSecureChannel).Abort(ch, reason, message) (err)
  trusted
  modifies G.naborted[ch]
  ensures G.naborted[ch] == old(G.naborted[ch]) + 1
# what the browse tasks do is not followed; they can change neither the request nor the results' length, nor write a response
pure opaquetasks:(*server.Server).handleBrowse
# publish requests taken from a session's queue are answered on their own channel with their own request id
func (*server.Session).removePublishRequest(s) (c, id, rq, res, ok, err)
  trusted
  modifies G.drained[s]
  ensures ok ==> c != nil && rq != nil && ufb(dequeued, base(c), id) && uf(dequeuedHandle, base(c), id) == rq.RequestHeader.RequestHandle
  ensures ok ==> err == nil
  ensures err == nil && !ok ==> G.drained[s] == 1
func server.selectTimestamps(results, mode) (r) [C21]
  noframe
  ensures same: len(r) == len(results)
func (*server.SessionManager).Get(m, tok) (s, ok)
  trusted
  modifies G.sess[0]
  ensures ok ==> s != nil && G.sess[0] == base(s)
  ensures !ok ==> s == nil
func (*server.SubscriptionManager).GetBySession(m, s) (r)
  trusted
  modifies G.subs[s]
  ensures len(r) == G.subs[s] && len(r) >= 0
func (*server.Session).SecureChannelId(s) (r)
  trusted
  ensures r == uf(channelOf, base(s))
func (*server.SessionManager).Delete(m, s)
  trusted
  modifies everything
  ensures G.good[0] == old(G.good[0])
noinline (*server.Server).readValue (*server.Server).writeValue (*server.Server).validateIndexRange (*server.Server).follow (*server.Server).target server.NewSubscription server.NewDataChangeMonitoredItem server.NewEventMonitoredItem
noinline (*server.NamespaceManager).FindNode (*server.NamespaceManager).IsSubtype (*server.NamespaceManager).FindComponent (*server.SubscriptionManager).Get (*server.SubscriptionManager).Add (*server.SubscriptionManager).Delete (*server.SubscriptionManager).Len
noinline (*server.Session).addBrowseContinuationPoint (*server.Session).removeBrowseContinuationPoint (*server.Session).addPublishRequest
noinline (*server.Subscription).Delete (*server.Subscription).Modify (*server.Subscription).FindItem (*server.Subscription).AppendItem (*server.Subscription).DeleteItem (*server.Subscription).acknowledge (*server.Subscription).handleLatePublishRequest (*server.Subscription).SetPublishingMode (*server.Subscription).startPublishing
noinline server.IsUserPermitted (*server.NamespaceManager).FindVariantType (*server.NamespaceManager).FindSuperType (*server.VariableNode).UserRolePermissions (*server.ObjectNode).UserRolePermissions (*server.VariableNode).UserAccessLevel (*server.MethodNode).UserExecutable (*server.MethodNode).UserRolePermissions ua.ToNodeID
noinline (*server.MethodNode).callMethodHandler (*server.Server).Endpoints (*server.Server).buildEndpointDescriptions server.NewSession (*server.SessionManager).Add (*server.Session).SetUserIdentity (*server.Session).SetSecureChannelId (*server.Session).SetUserRoles (*server.serverSecureChannel).LocalEndpoint server.getNextNonce (*server.Server).NamespaceUris (*server.Server).ServerCapabilities

func (*server.Server).handleCloseSession(srv, ch, requestid, req) (err) [C21]
  noframe
  invtimeout 200
  owned req
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && G.nresp[ch] == 0 && G.naborted[ch] == 0 && !ufb(dequeued, base(ch), requestid)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: channel: c == ch && id == requestid && G.nresp[ch] == 0 || ufb(dequeued, base(c), id) && is(r, *ua.ServiceFault)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: kind: is(r, *ua.ServiceFault) || is(r, *ua.CloseSessionResponse)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: handle: ite(is(r, *ua.ServiceFault), as(r, *ua.ServiceFault).ResponseHeader.RequestHandle, as(r, *ua.CloseSessionResponse).ResponseHeader.RequestHandle) == ite(ufb(dequeued, base(c), id), uf(dequeuedHandle, base(c), id), old(req.RequestHeader.RequestHandle))
  atcall (*server.serverSecureChannel).Write(c, r, id) :: fault: is(r, *ua.ServiceFault) ==> as(r, *ua.ServiceFault).ResponseHeader.ServiceResult >= 0x80000000
  atcall (*server.serverSecureChannel).Write(c, r, id) :: good: is(r, *ua.CloseSessionResponse) ==> as(r, *ua.CloseSessionResponse).ResponseHeader.ServiceResult == 0
  ensures one: G.nresp[ch] + G.naborted[ch] == 1
  ensures answered: !old(ch.discoveryOnly) ==> G.nresp[ch] == 1
  invariant G.nresp[ch] == 0
  atcall (*server.SessionManager).Delete(m, s) :: drained: uf(channelOf, base(s)) == 0 || G.drained[s] == 1

func (*server.Server).handleCancel(srv, ch, requestid, req) (err) [C21]
  noframe
  invtimeout 200
  owned req
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && G.nresp[ch] == 0 && G.naborted[ch] == 0 && !ufb(dequeued, base(ch), requestid)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: channel: c == ch && id == requestid && G.nresp[ch] == 0 || ufb(dequeued, base(c), id) && is(r, *ua.ServiceFault)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: kind: is(r, *ua.ServiceFault) || is(r, *ua.CancelResponse)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: handle: ite(is(r, *ua.ServiceFault), as(r, *ua.ServiceFault).ResponseHeader.RequestHandle, as(r, *ua.CancelResponse).ResponseHeader.RequestHandle) == ite(ufb(dequeued, base(c), id), uf(dequeuedHandle, base(c), id), old(req.RequestHeader.RequestHandle))
  atcall (*server.serverSecureChannel).Write(c, r, id) :: fault: is(r, *ua.ServiceFault) ==> as(r, *ua.ServiceFault).ResponseHeader.ServiceResult >= 0x80000000
  atcall (*server.serverSecureChannel).Write(c, r, id) :: good: is(r, *ua.CancelResponse) ==> as(r, *ua.CancelResponse).ResponseHeader.ServiceResult == 0
  ensures one: G.nresp[ch] + G.naborted[ch] == 1
  ensures answered: !old(ch.discoveryOnly) ==> G.nresp[ch] == 1

func (*server.Server).handleBrowse(srv, ch, requestid, req) (err) [C21]
  noframe
  invtimeout 200
  owned req
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && G.nresp[ch] == 0 && G.naborted[ch] == 0 && !ufb(dequeued, base(ch), requestid)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: channel: c == ch && id == requestid && G.nresp[ch] == 0 || ufb(dequeued, base(c), id) && is(r, *ua.ServiceFault)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: kind: is(r, *ua.ServiceFault) || is(r, *ua.BrowseResponse)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: handle: ite(is(r, *ua.ServiceFault), as(r, *ua.ServiceFault).ResponseHeader.RequestHandle, as(r, *ua.BrowseResponse).ResponseHeader.RequestHandle) == ite(ufb(dequeued, base(c), id), uf(dequeuedHandle, base(c), id), old(req.RequestHeader.RequestHandle))
  atcall (*server.serverSecureChannel).Write(c, r, id) :: fault: is(r, *ua.ServiceFault) ==> as(r, *ua.ServiceFault).ResponseHeader.ServiceResult >= 0x80000000
  atcall (*server.serverSecureChannel).Write(c, r, id) :: good: is(r, *ua.BrowseResponse) ==> as(r, *ua.BrowseResponse).ResponseHeader.ServiceResult == 0
  ensures one: G.nresp[ch] + G.naborted[ch] == 1
  ensures answered: !old(ch.discoveryOnly) ==> G.nresp[ch] == 1
  atcall (*server.serverSecureChannel).Write(c, r, id) :: results: is(r, *ua.BrowseResponse) ==> len(as(r, *ua.BrowseResponse).Results) == old(len(req.NodesToBrowse))

func (*server.Server).handleBrowseNext(srv, ch, requestid, req) (err) [C21]
  noframe
  invtimeout 200
  owned req
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && G.nresp[ch] == 0 && G.naborted[ch] == 0 && !ufb(dequeued, base(ch), requestid)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: channel: c == ch && id == requestid && G.nresp[ch] == 0 || ufb(dequeued, base(c), id) && is(r, *ua.ServiceFault)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: kind: is(r, *ua.ServiceFault) || is(r, *ua.BrowseNextResponse)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: handle: ite(is(r, *ua.ServiceFault), as(r, *ua.ServiceFault).ResponseHeader.RequestHandle, as(r, *ua.BrowseNextResponse).ResponseHeader.RequestHandle) == ite(ufb(dequeued, base(c), id), uf(dequeuedHandle, base(c), id), old(req.RequestHeader.RequestHandle))
  atcall (*server.serverSecureChannel).Write(c, r, id) :: fault: is(r, *ua.ServiceFault) ==> as(r, *ua.ServiceFault).ResponseHeader.ServiceResult >= 0x80000000
  atcall (*server.serverSecureChannel).Write(c, r, id) :: good: is(r, *ua.BrowseNextResponse) ==> as(r, *ua.BrowseNextResponse).ResponseHeader.ServiceResult == 0
  ensures one: G.nresp[ch] + G.naborted[ch] == 1
  ensures answered: !old(ch.discoveryOnly) ==> G.nresp[ch] == 1
  atcall (*server.serverSecureChannel).Write(c, r, id) :: results: is(r, *ua.BrowseNextResponse) ==> len(as(r, *ua.BrowseNextResponse).Results) == old(len(req.ContinuationPoints))

func (*server.Server).handleTranslateBrowsePathsToNodeIds(srv, ch, requestid, req) (err) [C21]
  noframe
  invtimeout 200
  owned req
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && G.nresp[ch] == 0 && G.naborted[ch] == 0 && !ufb(dequeued, base(ch), requestid)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: channel: c == ch && id == requestid && G.nresp[ch] == 0 || ufb(dequeued, base(c), id) && is(r, *ua.ServiceFault)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: kind: is(r, *ua.ServiceFault) || is(r, *ua.TranslateBrowsePathsToNodeIDsResponse)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: handle: ite(is(r, *ua.ServiceFault), as(r, *ua.ServiceFault).ResponseHeader.RequestHandle, as(r, *ua.TranslateBrowsePathsToNodeIDsResponse).ResponseHeader.RequestHandle) == ite(ufb(dequeued, base(c), id), uf(dequeuedHandle, base(c), id), old(req.RequestHeader.RequestHandle))
  atcall (*server.serverSecureChannel).Write(c, r, id) :: fault: is(r, *ua.ServiceFault) ==> as(r, *ua.ServiceFault).ResponseHeader.ServiceResult >= 0x80000000
  atcall (*server.serverSecureChannel).Write(c, r, id) :: good: is(r, *ua.TranslateBrowsePathsToNodeIDsResponse) ==> as(r, *ua.TranslateBrowsePathsToNodeIDsResponse).ResponseHeader.ServiceResult == 0
  ensures one: G.nresp[ch] + G.naborted[ch] == 1
  ensures answered: !old(ch.discoveryOnly) ==> G.nresp[ch] == 1
  atcall (*server.serverSecureChannel).Write(c, r, id) :: results: is(r, *ua.TranslateBrowsePathsToNodeIDsResponse) ==> len(as(r, *ua.TranslateBrowsePathsToNodeIDsResponse).Results) == old(len(req.BrowsePaths))

func (*server.Server).handleRegisterNodes(srv, ch, requestid, req) (err) [C21]
  noframe
  invtimeout 200
  owned req
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && G.nresp[ch] == 0 && G.naborted[ch] == 0 && !ufb(dequeued, base(ch), requestid)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: channel: c == ch && id == requestid && G.nresp[ch] == 0 || ufb(dequeued, base(c), id) && is(r, *ua.ServiceFault)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: kind: is(r, *ua.ServiceFault) || is(r, *ua.RegisterNodesResponse)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: handle: ite(is(r, *ua.ServiceFault), as(r, *ua.ServiceFault).ResponseHeader.RequestHandle, as(r, *ua.RegisterNodesResponse).ResponseHeader.RequestHandle) == ite(ufb(dequeued, base(c), id), uf(dequeuedHandle, base(c), id), old(req.RequestHeader.RequestHandle))
  atcall (*server.serverSecureChannel).Write(c, r, id) :: fault: is(r, *ua.ServiceFault) ==> as(r, *ua.ServiceFault).ResponseHeader.ServiceResult >= 0x80000000
  atcall (*server.serverSecureChannel).Write(c, r, id) :: good: is(r, *ua.RegisterNodesResponse) ==> as(r, *ua.RegisterNodesResponse).ResponseHeader.ServiceResult == 0
  ensures one: G.nresp[ch] + G.naborted[ch] == 1
  ensures answered: !old(ch.discoveryOnly) ==> G.nresp[ch] == 1
  atcall (*server.serverSecureChannel).Write(c, r, id) :: results: is(r, *ua.RegisterNodesResponse) ==> len(as(r, *ua.RegisterNodesResponse).RegisteredNodeIDs) == old(len(req.NodesToRegister))

func (*server.Server).handleUnregisterNodes(srv, ch, requestid, req) (err) [C21]
  noframe
  invtimeout 200
  owned req
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && G.nresp[ch] == 0 && G.naborted[ch] == 0 && !ufb(dequeued, base(ch), requestid)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: channel: c == ch && id == requestid && G.nresp[ch] == 0 || ufb(dequeued, base(c), id) && is(r, *ua.ServiceFault)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: kind: is(r, *ua.ServiceFault) || is(r, *ua.UnregisterNodesResponse)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: handle: ite(is(r, *ua.ServiceFault), as(r, *ua.ServiceFault).ResponseHeader.RequestHandle, as(r, *ua.UnregisterNodesResponse).ResponseHeader.RequestHandle) == ite(ufb(dequeued, base(c), id), uf(dequeuedHandle, base(c), id), old(req.RequestHeader.RequestHandle))
  atcall (*server.serverSecureChannel).Write(c, r, id) :: fault: is(r, *ua.ServiceFault) ==> as(r, *ua.ServiceFault).ResponseHeader.ServiceResult >= 0x80000000
  atcall (*server.serverSecureChannel).Write(c, r, id) :: good: is(r, *ua.UnregisterNodesResponse) ==> as(r, *ua.UnregisterNodesResponse).ResponseHeader.ServiceResult == 0
  ensures one: G.nresp[ch] + G.naborted[ch] == 1
  ensures answered: !old(ch.discoveryOnly) ==> G.nresp[ch] == 1

func (*server.Server).handleRead(srv, ch, requestid, req) (err) [C21]
  noframe
  invtimeout 200
  owned req
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && G.nresp[ch] == 0 && G.naborted[ch] == 0 && !ufb(dequeued, base(ch), requestid)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: channel: c == ch && id == requestid && G.nresp[ch] == 0 || ufb(dequeued, base(c), id) && is(r, *ua.ServiceFault)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: kind: is(r, *ua.ServiceFault) || is(r, *ua.ReadResponse)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: handle: ite(is(r, *ua.ServiceFault), as(r, *ua.ServiceFault).ResponseHeader.RequestHandle, as(r, *ua.ReadResponse).ResponseHeader.RequestHandle) == ite(ufb(dequeued, base(c), id), uf(dequeuedHandle, base(c), id), old(req.RequestHeader.RequestHandle))
  atcall (*server.serverSecureChannel).Write(c, r, id) :: fault: is(r, *ua.ServiceFault) ==> as(r, *ua.ServiceFault).ResponseHeader.ServiceResult >= 0x80000000
  atcall (*server.serverSecureChannel).Write(c, r, id) :: good: is(r, *ua.ReadResponse) ==> as(r, *ua.ReadResponse).ResponseHeader.ServiceResult == 0
  ensures one: G.nresp[ch] + G.naborted[ch] == 1
  ensures answered: !old(ch.discoveryOnly) ==> G.nresp[ch] == 1
  atcall (*server.serverSecureChannel).Write(c, r, id) :: results: is(r, *ua.ReadResponse) ==> len(as(r, *ua.ReadResponse).Results) == old(len(req.NodesToRead))

func (*server.Server).handleWrite(srv, ch, requestid, req) (err) [C21]
  noframe
  invtimeout 200
  owned req
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && G.nresp[ch] == 0 && G.naborted[ch] == 0 && !ufb(dequeued, base(ch), requestid)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: channel: c == ch && id == requestid && G.nresp[ch] == 0 || ufb(dequeued, base(c), id) && is(r, *ua.ServiceFault)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: kind: is(r, *ua.ServiceFault) || is(r, *ua.WriteResponse)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: handle: ite(is(r, *ua.ServiceFault), as(r, *ua.ServiceFault).ResponseHeader.RequestHandle, as(r, *ua.WriteResponse).ResponseHeader.RequestHandle) == ite(ufb(dequeued, base(c), id), uf(dequeuedHandle, base(c), id), old(req.RequestHeader.RequestHandle))
  atcall (*server.serverSecureChannel).Write(c, r, id) :: fault: is(r, *ua.ServiceFault) ==> as(r, *ua.ServiceFault).ResponseHeader.ServiceResult >= 0x80000000
  atcall (*server.serverSecureChannel).Write(c, r, id) :: good: is(r, *ua.WriteResponse) ==> as(r, *ua.WriteResponse).ResponseHeader.ServiceResult == 0
  ensures one: G.nresp[ch] + G.naborted[ch] == 1
  ensures answered: !old(ch.discoveryOnly) ==> G.nresp[ch] == 1
  atcall (*server.serverSecureChannel).Write(c, r, id) :: results: is(r, *ua.WriteResponse) ==> len(as(r, *ua.WriteResponse).Results) == old(len(req.NodesToWrite))

func (*server.Server).handleHistoryRead(srv, ch, requestid, req) (err) [C21]
  noframe
  invtimeout 200
  owned req
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && G.nresp[ch] == 0 && G.naborted[ch] == 0 && !ufb(dequeued, base(ch), requestid)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: channel: c == ch && id == requestid && G.nresp[ch] == 0 || ufb(dequeued, base(c), id) && is(r, *ua.ServiceFault)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: kind: is(r, *ua.ServiceFault) || is(r, *ua.HistoryReadResponse)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: handle: ite(is(r, *ua.ServiceFault), as(r, *ua.ServiceFault).ResponseHeader.RequestHandle, as(r, *ua.HistoryReadResponse).ResponseHeader.RequestHandle) == ite(ufb(dequeued, base(c), id), uf(dequeuedHandle, base(c), id), old(req.RequestHeader.RequestHandle))
  atcall (*server.serverSecureChannel).Write(c, r, id) :: fault: is(r, *ua.ServiceFault) ==> as(r, *ua.ServiceFault).ResponseHeader.ServiceResult >= 0x80000000
  ensures one: G.nresp[ch] + G.naborted[ch] == 1
  ensures answered: !old(ch.discoveryOnly) ==> G.nresp[ch] == 1

func (*server.Server).handleCall(srv, ch, requestid, req) (err) [C21]
  noframe
  invtimeout 200
  owned req
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && G.nresp[ch] == 0 && G.naborted[ch] == 0 && !ufb(dequeued, base(ch), requestid)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: channel: c == ch && id == requestid && G.nresp[ch] == 0 || ufb(dequeued, base(c), id) && is(r, *ua.ServiceFault)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: kind: is(r, *ua.ServiceFault) || is(r, *ua.CallResponse)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: handle: ite(is(r, *ua.ServiceFault), as(r, *ua.ServiceFault).ResponseHeader.RequestHandle, as(r, *ua.CallResponse).ResponseHeader.RequestHandle) == ite(ufb(dequeued, base(c), id), uf(dequeuedHandle, base(c), id), old(req.RequestHeader.RequestHandle))
  atcall (*server.serverSecureChannel).Write(c, r, id) :: fault: is(r, *ua.ServiceFault) ==> as(r, *ua.ServiceFault).ResponseHeader.ServiceResult >= 0x80000000
  atcall (*server.serverSecureChannel).Write(c, r, id) :: good: is(r, *ua.CallResponse) ==> as(r, *ua.CallResponse).ResponseHeader.ServiceResult == 0
  ensures one: G.nresp[ch] + G.naborted[ch] == 1
  ensures answered: !old(ch.discoveryOnly) ==> G.nresp[ch] == 1
  atcall (*server.serverSecureChannel).Write(c, r, id) :: results: is(r, *ua.CallResponse) ==> len(as(r, *ua.CallResponse).Results) == old(len(req.MethodsToCall))

func (*server.Server).handleCreateMonitoredItems(srv, ch, requestid, req) (err) [C21]
  noframe
  invtimeout 200
  owned req
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && G.nresp[ch] == 0 && G.naborted[ch] == 0 && !ufb(dequeued, base(ch), requestid)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: channel: c == ch && id == requestid && G.nresp[ch] == 0 || ufb(dequeued, base(c), id) && is(r, *ua.ServiceFault)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: kind: is(r, *ua.ServiceFault) || is(r, *ua.CreateMonitoredItemsResponse)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: handle: ite(is(r, *ua.ServiceFault), as(r, *ua.ServiceFault).ResponseHeader.RequestHandle, as(r, *ua.CreateMonitoredItemsResponse).ResponseHeader.RequestHandle) == ite(ufb(dequeued, base(c), id), uf(dequeuedHandle, base(c), id), old(req.RequestHeader.RequestHandle))
  atcall (*server.serverSecureChannel).Write(c, r, id) :: fault: is(r, *ua.ServiceFault) ==> as(r, *ua.ServiceFault).ResponseHeader.ServiceResult >= 0x80000000
  atcall (*server.serverSecureChannel).Write(c, r, id) :: good: is(r, *ua.CreateMonitoredItemsResponse) ==> as(r, *ua.CreateMonitoredItemsResponse).ResponseHeader.ServiceResult == 0
  ensures one: G.nresp[ch] + G.naborted[ch] == 1
  ensures answered: !old(ch.discoveryOnly) ==> G.nresp[ch] == 1
  atcall (*server.serverSecureChannel).Write(c, r, id) :: results: is(r, *ua.CreateMonitoredItemsResponse) ==> len(as(r, *ua.CreateMonitoredItemsResponse).Results) == old(len(req.ItemsToCreate))

func (*server.Server).handleModifyMonitoredItems(srv, ch, requestid, req) (err) [C21]
  noframe
  invtimeout 200
  owned req
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && G.nresp[ch] == 0 && G.naborted[ch] == 0 && !ufb(dequeued, base(ch), requestid)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: channel: c == ch && id == requestid && G.nresp[ch] == 0 || ufb(dequeued, base(c), id) && is(r, *ua.ServiceFault)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: kind: is(r, *ua.ServiceFault) || is(r, *ua.ModifyMonitoredItemsResponse)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: handle: ite(is(r, *ua.ServiceFault), as(r, *ua.ServiceFault).ResponseHeader.RequestHandle, as(r, *ua.ModifyMonitoredItemsResponse).ResponseHeader.RequestHandle) == ite(ufb(dequeued, base(c), id), uf(dequeuedHandle, base(c), id), old(req.RequestHeader.RequestHandle))
  atcall (*server.serverSecureChannel).Write(c, r, id) :: fault: is(r, *ua.ServiceFault) ==> as(r, *ua.ServiceFault).ResponseHeader.ServiceResult >= 0x80000000
  atcall (*server.serverSecureChannel).Write(c, r, id) :: good: is(r, *ua.ModifyMonitoredItemsResponse) ==> as(r, *ua.ModifyMonitoredItemsResponse).ResponseHeader.ServiceResult == 0
  ensures one: G.nresp[ch] + G.naborted[ch] == 1
  ensures answered: !old(ch.discoveryOnly) ==> G.nresp[ch] == 1
  atcall (*server.serverSecureChannel).Write(c, r, id) :: results: is(r, *ua.ModifyMonitoredItemsResponse) ==> len(as(r, *ua.ModifyMonitoredItemsResponse).Results) == old(len(req.ItemsToModify))

func (*server.Server).handleSetMonitoringMode(srv, ch, requestid, req) (err) [C21]
  noframe
  invtimeout 200
  owned req
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && G.nresp[ch] == 0 && G.naborted[ch] == 0 && !ufb(dequeued, base(ch), requestid)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: channel: c == ch && id == requestid && G.nresp[ch] == 0 || ufb(dequeued, base(c), id) && is(r, *ua.ServiceFault)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: kind: is(r, *ua.ServiceFault) || is(r, *ua.SetMonitoringModeResponse)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: handle: ite(is(r, *ua.ServiceFault), as(r, *ua.ServiceFault).ResponseHeader.RequestHandle, as(r, *ua.SetMonitoringModeResponse).ResponseHeader.RequestHandle) == ite(ufb(dequeued, base(c), id), uf(dequeuedHandle, base(c), id), old(req.RequestHeader.RequestHandle))
  atcall (*server.serverSecureChannel).Write(c, r, id) :: fault: is(r, *ua.ServiceFault) ==> as(r, *ua.ServiceFault).ResponseHeader.ServiceResult >= 0x80000000
  atcall (*server.serverSecureChannel).Write(c, r, id) :: good: is(r, *ua.SetMonitoringModeResponse) ==> as(r, *ua.SetMonitoringModeResponse).ResponseHeader.ServiceResult == 0
  ensures one: G.nresp[ch] + G.naborted[ch] == 1
  ensures answered: !old(ch.discoveryOnly) ==> G.nresp[ch] == 1
  atcall (*server.serverSecureChannel).Write(c, r, id) :: results: is(r, *ua.SetMonitoringModeResponse) ==> len(as(r, *ua.SetMonitoringModeResponse).Results) == old(len(req.MonitoredItemIDs))

func (*server.Server).handleSetTriggering(srv, ch, requestid, req) (err) [C21]
  noframe
  invtimeout 200
  owned req
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && G.nresp[ch] == 0 && G.naborted[ch] == 0 && !ufb(dequeued, base(ch), requestid)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: channel: c == ch && id == requestid && G.nresp[ch] == 0 || ufb(dequeued, base(c), id) && is(r, *ua.ServiceFault)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: kind: is(r, *ua.ServiceFault) || is(r, *ua.SetTriggeringResponse)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: handle: ite(is(r, *ua.ServiceFault), as(r, *ua.ServiceFault).ResponseHeader.RequestHandle, as(r, *ua.SetTriggeringResponse).ResponseHeader.RequestHandle) == ite(ufb(dequeued, base(c), id), uf(dequeuedHandle, base(c), id), old(req.RequestHeader.RequestHandle))
  atcall (*server.serverSecureChannel).Write(c, r, id) :: fault: is(r, *ua.ServiceFault) ==> as(r, *ua.ServiceFault).ResponseHeader.ServiceResult >= 0x80000000
  atcall (*server.serverSecureChannel).Write(c, r, id) :: good: is(r, *ua.SetTriggeringResponse) ==> as(r, *ua.SetTriggeringResponse).ResponseHeader.ServiceResult == 0
  ensures one: G.nresp[ch] + G.naborted[ch] == 1
  ensures answered: !old(ch.discoveryOnly) ==> G.nresp[ch] == 1

func (*server.Server).handleDeleteMonitoredItems(srv, ch, requestid, req) (err) [C21]
  noframe
  invtimeout 200
  owned req
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && G.nresp[ch] == 0 && G.naborted[ch] == 0 && !ufb(dequeued, base(ch), requestid)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: channel: c == ch && id == requestid && G.nresp[ch] == 0 || ufb(dequeued, base(c), id) && is(r, *ua.ServiceFault)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: kind: is(r, *ua.ServiceFault) || is(r, *ua.DeleteMonitoredItemsResponse)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: handle: ite(is(r, *ua.ServiceFault), as(r, *ua.ServiceFault).ResponseHeader.RequestHandle, as(r, *ua.DeleteMonitoredItemsResponse).ResponseHeader.RequestHandle) == ite(ufb(dequeued, base(c), id), uf(dequeuedHandle, base(c), id), old(req.RequestHeader.RequestHandle))
  atcall (*server.serverSecureChannel).Write(c, r, id) :: fault: is(r, *ua.ServiceFault) ==> as(r, *ua.ServiceFault).ResponseHeader.ServiceResult >= 0x80000000
  atcall (*server.serverSecureChannel).Write(c, r, id) :: good: is(r, *ua.DeleteMonitoredItemsResponse) ==> as(r, *ua.DeleteMonitoredItemsResponse).ResponseHeader.ServiceResult == 0
  ensures one: G.nresp[ch] + G.naborted[ch] == 1
  ensures answered: !old(ch.discoveryOnly) ==> G.nresp[ch] == 1
  atcall (*server.serverSecureChannel).Write(c, r, id) :: results: is(r, *ua.DeleteMonitoredItemsResponse) ==> len(as(r, *ua.DeleteMonitoredItemsResponse).Results) == old(len(req.MonitoredItemIDs))

func (*server.Server).handleCreateSubscription(srv, ch, requestid, req) (err) [C21]
  noframe
  invtimeout 200
  owned req
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && G.nresp[ch] == 0 && G.naborted[ch] == 0 && !ufb(dequeued, base(ch), requestid)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: channel: c == ch && id == requestid && G.nresp[ch] == 0 || ufb(dequeued, base(c), id) && is(r, *ua.ServiceFault)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: kind: is(r, *ua.ServiceFault) || is(r, *ua.CreateSubscriptionResponse)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: handle: ite(is(r, *ua.ServiceFault), as(r, *ua.ServiceFault).ResponseHeader.RequestHandle, as(r, *ua.CreateSubscriptionResponse).ResponseHeader.RequestHandle) == ite(ufb(dequeued, base(c), id), uf(dequeuedHandle, base(c), id), old(req.RequestHeader.RequestHandle))
  atcall (*server.serverSecureChannel).Write(c, r, id) :: fault: is(r, *ua.ServiceFault) ==> as(r, *ua.ServiceFault).ResponseHeader.ServiceResult >= 0x80000000
  atcall (*server.serverSecureChannel).Write(c, r, id) :: good: is(r, *ua.CreateSubscriptionResponse) ==> as(r, *ua.CreateSubscriptionResponse).ResponseHeader.ServiceResult == 0
  ensures one: G.nresp[ch] + G.naborted[ch] == 1
  ensures answered: !old(ch.discoveryOnly) ==> G.nresp[ch] == 1

func (*server.Server).handleModifySubscription(srv, ch, requestid, req) (err) [C21]
  noframe
  invtimeout 200
  owned req
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && G.nresp[ch] == 0 && G.naborted[ch] == 0 && !ufb(dequeued, base(ch), requestid)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: channel: c == ch && id == requestid && G.nresp[ch] == 0 || ufb(dequeued, base(c), id) && is(r, *ua.ServiceFault)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: kind: is(r, *ua.ServiceFault) || is(r, *ua.ModifySubscriptionResponse)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: handle: ite(is(r, *ua.ServiceFault), as(r, *ua.ServiceFault).ResponseHeader.RequestHandle, as(r, *ua.ModifySubscriptionResponse).ResponseHeader.RequestHandle) == ite(ufb(dequeued, base(c), id), uf(dequeuedHandle, base(c), id), old(req.RequestHeader.RequestHandle))
  atcall (*server.serverSecureChannel).Write(c, r, id) :: fault: is(r, *ua.ServiceFault) ==> as(r, *ua.ServiceFault).ResponseHeader.ServiceResult >= 0x80000000
  atcall (*server.serverSecureChannel).Write(c, r, id) :: good: is(r, *ua.ModifySubscriptionResponse) ==> as(r, *ua.ModifySubscriptionResponse).ResponseHeader.ServiceResult == 0
  ensures one: G.nresp[ch] + G.naborted[ch] == 1
  ensures answered: !old(ch.discoveryOnly) ==> G.nresp[ch] == 1

func (*server.Server).handleSetPublishingMode(srv, ch, requestid, req) (err) [C21]
  noframe
  invtimeout 200
  owned req
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && G.nresp[ch] == 0 && G.naborted[ch] == 0 && !ufb(dequeued, base(ch), requestid)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: channel: c == ch && id == requestid && G.nresp[ch] == 0 || ufb(dequeued, base(c), id) && is(r, *ua.ServiceFault)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: kind: is(r, *ua.ServiceFault) || is(r, *ua.SetPublishingModeResponse)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: handle: ite(is(r, *ua.ServiceFault), as(r, *ua.ServiceFault).ResponseHeader.RequestHandle, as(r, *ua.SetPublishingModeResponse).ResponseHeader.RequestHandle) == ite(ufb(dequeued, base(c), id), uf(dequeuedHandle, base(c), id), old(req.RequestHeader.RequestHandle))
  atcall (*server.serverSecureChannel).Write(c, r, id) :: fault: is(r, *ua.ServiceFault) ==> as(r, *ua.ServiceFault).ResponseHeader.ServiceResult >= 0x80000000
  atcall (*server.serverSecureChannel).Write(c, r, id) :: good: is(r, *ua.SetPublishingModeResponse) ==> as(r, *ua.SetPublishingModeResponse).ResponseHeader.ServiceResult == 0
  ensures one: G.nresp[ch] + G.naborted[ch] == 1
  ensures answered: !old(ch.discoveryOnly) ==> G.nresp[ch] == 1
  atcall (*server.serverSecureChannel).Write(c, r, id) :: results: is(r, *ua.SetPublishingModeResponse) ==> len(as(r, *ua.SetPublishingModeResponse).Results) == old(len(req.SubscriptionIDs))

func (*server.Server).handleDeleteSubscriptions(srv, ch, requestid, req) (err) [C21]
  noframe
  invtimeout 200
  owned req
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && G.nresp[ch] == 0 && G.naborted[ch] == 0 && !ufb(dequeued, base(ch), requestid)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: channel: c == ch && id == requestid && G.nresp[ch] == 0 || ufb(dequeued, base(c), id) && is(r, *ua.ServiceFault)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: kind: is(r, *ua.ServiceFault) || is(r, *ua.DeleteSubscriptionsResponse)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: handle: ite(is(r, *ua.ServiceFault), as(r, *ua.ServiceFault).ResponseHeader.RequestHandle, as(r, *ua.DeleteSubscriptionsResponse).ResponseHeader.RequestHandle) == ite(ufb(dequeued, base(c), id), uf(dequeuedHandle, base(c), id), old(req.RequestHeader.RequestHandle))
  atcall (*server.serverSecureChannel).Write(c, r, id) :: fault: is(r, *ua.ServiceFault) ==> as(r, *ua.ServiceFault).ResponseHeader.ServiceResult >= 0x80000000
  atcall (*server.serverSecureChannel).Write(c, r, id) :: good: is(r, *ua.DeleteSubscriptionsResponse) ==> as(r, *ua.DeleteSubscriptionsResponse).ResponseHeader.ServiceResult == 0
  ensures one: G.nresp[ch] + G.naborted[ch] == 1
  ensures answered: !old(ch.discoveryOnly) ==> G.nresp[ch] == 1
  invariant G.nresp[ch] == 1
  requires G.good[0] == 0
  ensures drained: err == nil && G.good[0] == 1 ==> G.subs[G.sess[0]] > 0 || G.drained[G.sess[0]] == 1
  atcall (*server.serverSecureChannel).Write(c, r, id) :: results: is(r, *ua.DeleteSubscriptionsResponse) ==> len(as(r, *ua.DeleteSubscriptionsResponse).Results) == old(len(req.SubscriptionIDs))

func (*server.Server).handleRepublish(srv, ch, requestid, req) (err) [C21]
  noframe
  invtimeout 200
  owned req
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && G.nresp[ch] == 0 && G.naborted[ch] == 0 && !ufb(dequeued, base(ch), requestid)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: channel: c == ch && id == requestid && G.nresp[ch] == 0 || ufb(dequeued, base(c), id) && is(r, *ua.ServiceFault)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: kind: is(r, *ua.ServiceFault) || is(r, *ua.RepublishResponse)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: handle: ite(is(r, *ua.ServiceFault), as(r, *ua.ServiceFault).ResponseHeader.RequestHandle, as(r, *ua.RepublishResponse).ResponseHeader.RequestHandle) == ite(ufb(dequeued, base(c), id), uf(dequeuedHandle, base(c), id), old(req.RequestHeader.RequestHandle))
  atcall (*server.serverSecureChannel).Write(c, r, id) :: fault: is(r, *ua.ServiceFault) ==> as(r, *ua.ServiceFault).ResponseHeader.ServiceResult >= 0x80000000
  atcall (*server.serverSecureChannel).Write(c, r, id) :: good: is(r, *ua.RepublishResponse) ==> as(r, *ua.RepublishResponse).ResponseHeader.ServiceResult == 0
  ensures one: G.nresp[ch] + G.naborted[ch] == 1
  ensures answered: !old(ch.discoveryOnly) ==> G.nresp[ch] == 1

func (*server.Server).handleCreateSession(srv, ch, requestid, req) (err) [C21]
  noframe
  invtimeout 200
  owned req
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && G.nresp[ch] == 0 && G.naborted[ch] == 0 && !ufb(dequeued, base(ch), requestid)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: channel: c == ch && id == requestid && G.nresp[ch] == 0 || ufb(dequeued, base(c), id) && is(r, *ua.ServiceFault)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: kind: is(r, *ua.ServiceFault) || is(r, *ua.CreateSessionResponse)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: handle: ite(is(r, *ua.ServiceFault), as(r, *ua.ServiceFault).ResponseHeader.RequestHandle, as(r, *ua.CreateSessionResponse).ResponseHeader.RequestHandle) == ite(ufb(dequeued, base(c), id), uf(dequeuedHandle, base(c), id), old(req.RequestHeader.RequestHandle))
  atcall (*server.serverSecureChannel).Write(c, r, id) :: fault: is(r, *ua.ServiceFault) ==> as(r, *ua.ServiceFault).ResponseHeader.ServiceResult >= 0x80000000
  atcall (*server.serverSecureChannel).Write(c, r, id) :: good: is(r, *ua.CreateSessionResponse) ==> as(r, *ua.CreateSessionResponse).ResponseHeader.ServiceResult == 0
  ensures one: err == nil ==> G.nresp[ch] + G.naborted[ch] == 1
  ensures most: G.nresp[ch] + G.naborted[ch] <= 1

func (*server.Server).handleActivateSession(srv, ch, requestid, req) (err) [C21]
  noframe
  invtimeout 200
  owned req
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && G.nresp[ch] == 0 && G.naborted[ch] == 0 && !ufb(dequeued, base(ch), requestid)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: channel: c == ch && id == requestid && G.nresp[ch] == 0 || ufb(dequeued, base(c), id) && is(r, *ua.ServiceFault)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: kind: is(r, *ua.ServiceFault) || is(r, *ua.ActivateSessionResponse)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: handle: ite(is(r, *ua.ServiceFault), as(r, *ua.ServiceFault).ResponseHeader.RequestHandle, as(r, *ua.ActivateSessionResponse).ResponseHeader.RequestHandle) == ite(ufb(dequeued, base(c), id), uf(dequeuedHandle, base(c), id), old(req.RequestHeader.RequestHandle))
  atcall (*server.serverSecureChannel).Write(c, r, id) :: good: is(r, *ua.ActivateSessionResponse) ==> as(r, *ua.ActivateSessionResponse).ResponseHeader.ServiceResult == 0
  ensures one: err == nil ==> G.nresp[ch] + G.naborted[ch] == 1
  ensures most: G.nresp[ch] + G.naborted[ch] <= 1

func (*server.Server).findServers(srv, ch, requestid, req) (err) [C21]
  noframe
  invtimeout 200
  owned req
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && G.nresp[ch] == 0 && G.naborted[ch] == 0 && !ufb(dequeued, base(ch), requestid)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: channel: c == ch && id == requestid && G.nresp[ch] == 0 || ufb(dequeued, base(c), id) && is(r, *ua.ServiceFault)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: kind: is(r, *ua.ServiceFault) || is(r, *ua.FindServersResponse)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: handle: ite(is(r, *ua.ServiceFault), as(r, *ua.ServiceFault).ResponseHeader.RequestHandle, as(r, *ua.FindServersResponse).ResponseHeader.RequestHandle) == ite(ufb(dequeued, base(c), id), uf(dequeuedHandle, base(c), id), old(req.RequestHeader.RequestHandle))
  atcall (*server.serverSecureChannel).Write(c, r, id) :: fault: is(r, *ua.ServiceFault) ==> as(r, *ua.ServiceFault).ResponseHeader.ServiceResult >= 0x80000000
  atcall (*server.serverSecureChannel).Write(c, r, id) :: good: is(r, *ua.FindServersResponse) ==> as(r, *ua.FindServersResponse).ResponseHeader.ServiceResult == 0
  ensures one: G.nresp[ch] + G.naborted[ch] == 1
  ensures answered: !old(ch.discoveryOnly) ==> G.nresp[ch] == 1

func (*server.Server).getEndpoints(srv, ch, requestid, req) (err) [C21]
  noframe
  invtimeout 200
  owned req
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && G.nresp[ch] == 0 && G.naborted[ch] == 0 && !ufb(dequeued, base(ch), requestid)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: channel: c == ch && id == requestid && G.nresp[ch] == 0 || ufb(dequeued, base(c), id) && is(r, *ua.ServiceFault)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: kind: is(r, *ua.ServiceFault) || is(r, *ua.GetEndpointsResponse)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: handle: ite(is(r, *ua.ServiceFault), as(r, *ua.ServiceFault).ResponseHeader.RequestHandle, as(r, *ua.GetEndpointsResponse).ResponseHeader.RequestHandle) == ite(ufb(dequeued, base(c), id), uf(dequeuedHandle, base(c), id), old(req.RequestHeader.RequestHandle))
  atcall (*server.serverSecureChannel).Write(c, r, id) :: fault: is(r, *ua.ServiceFault) ==> as(r, *ua.ServiceFault).ResponseHeader.ServiceResult >= 0x80000000
  atcall (*server.serverSecureChannel).Write(c, r, id) :: good: is(r, *ua.GetEndpointsResponse) ==> as(r, *ua.GetEndpointsResponse).ResponseHeader.ServiceResult == 0
  ensures one: G.nresp[ch] + G.naborted[ch] == 1
  ensures answered: !old(ch.discoveryOnly) ==> G.nresp[ch] == 1
