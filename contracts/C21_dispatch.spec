# Generated by gen_c21.py. Dispatch of requests to the handlers.
package server
ghost ndisp int
func (*server.Server).handleCloseSession(srv, ch, id, req) (err)
  trusted
  modifies G.ndisp[0]
  ensures G.ndisp[0] == old(G.ndisp[0]) + 1
func (*server.Server).handleCancel(srv, ch, id, req) (err)
  trusted
  modifies G.ndisp[0]
  ensures G.ndisp[0] == old(G.ndisp[0]) + 1
func (*server.Server).handleBrowse(srv, ch, id, req) (err)
  trusted
  modifies G.ndisp[0]
  ensures G.ndisp[0] == old(G.ndisp[0]) + 1
func (*server.Server).handleBrowseNext(srv, ch, id, req) (err)
  trusted
  modifies G.ndisp[0]
  ensures G.ndisp[0] == old(G.ndisp[0]) + 1
func (*server.Server).handleTranslateBrowsePathsToNodeIds(srv, ch, id, req) (err)
  trusted
  modifies G.ndisp[0]
  ensures G.ndisp[0] == old(G.ndisp[0]) + 1
func (*server.Server).handleRegisterNodes(srv, ch, id, req) (err)
  trusted
  modifies G.ndisp[0]
  ensures G.ndisp[0] == old(G.ndisp[0]) + 1
func (*server.Server).handleUnregisterNodes(srv, ch, id, req) (err)
  trusted
  modifies G.ndisp[0]
  ensures G.ndisp[0] == old(G.ndisp[0]) + 1
func (*server.Server).handleRead(srv, ch, id, req) (err)
  trusted
  modifies G.ndisp[0]
  ensures G.ndisp[0] == old(G.ndisp[0]) + 1
func (*server.Server).handleWrite(srv, ch, id, req) (err)
  trusted
  modifies G.ndisp[0]
  ensures G.ndisp[0] == old(G.ndisp[0]) + 1
func (*server.Server).handleHistoryRead(srv, ch, id, req) (err)
  trusted
  modifies G.ndisp[0]
  ensures G.ndisp[0] == old(G.ndisp[0]) + 1
func (*server.Server).handleCall(srv, ch, id, req) (err)
  trusted
  modifies G.ndisp[0]
  ensures G.ndisp[0] == old(G.ndisp[0]) + 1
func (*server.Server).handleCreateMonitoredItems(srv, ch, id, req) (err)
  trusted
  modifies G.ndisp[0]
  ensures G.ndisp[0] == old(G.ndisp[0]) + 1
func (*server.Server).handleModifyMonitoredItems(srv, ch, id, req) (err)
  trusted
  modifies G.ndisp[0]
  ensures G.ndisp[0] == old(G.ndisp[0]) + 1
func (*server.Server).handleSetMonitoringMode(srv, ch, id, req) (err)
  trusted
  modifies G.ndisp[0]
  ensures G.ndisp[0] == old(G.ndisp[0]) + 1
func (*server.Server).handleSetTriggering(srv, ch, id, req) (err)
  trusted
  modifies G.ndisp[0]
  ensures G.ndisp[0] == old(G.ndisp[0]) + 1
func (*server.Server).handleDeleteMonitoredItems(srv, ch, id, req) (err)
  trusted
  modifies G.ndisp[0]
  ensures G.ndisp[0] == old(G.ndisp[0]) + 1
func (*server.Server).handleCreateSubscription(srv, ch, id, req) (err)
  trusted
  modifies G.ndisp[0]
  ensures G.ndisp[0] == old(G.ndisp[0]) + 1
func (*server.Server).handleModifySubscription(srv, ch, id, req) (err)
  trusted
  modifies G.ndisp[0]
  ensures G.ndisp[0] == old(G.ndisp[0]) + 1
func (*server.Server).handleSetPublishingMode(srv, ch, id, req) (err)
  trusted
  modifies G.ndisp[0]
  ensures G.ndisp[0] == old(G.ndisp[0]) + 1
func (*server.Server).handleDeleteSubscriptions(srv, ch, id, req) (err)
  trusted
  modifies G.ndisp[0]
  ensures G.ndisp[0] == old(G.ndisp[0]) + 1
func (*server.Server).handleRepublish(srv, ch, id, req) (err)
  trusted
  modifies G.ndisp[0]
  ensures G.ndisp[0] == old(G.ndisp[0]) + 1
func (*server.Server).handleCreateSession(srv, ch, id, req) (err)
  trusted
  modifies G.ndisp[0]
  ensures G.ndisp[0] == old(G.ndisp[0]) + 1
func (*server.Server).handleActivateSession(srv, ch, id, req) (err)
  trusted
  modifies G.ndisp[0]
  ensures G.ndisp[0] == old(G.ndisp[0]) + 1
func (*server.Server).handlePublish(srv, ch, id, req) (err)
  trusted
  modifies G.ndisp[0]
  ensures G.ndisp[0] == old(G.ndisp[0]) + 1
func (*server.Server).findServers(srv, ch, id, req) (err)
  trusted
  modifies G.ndisp[0]
  ensures G.ndisp[0] == old(G.ndisp[0]) + 1
func (*server.Server).getEndpoints(srv, ch, id, req) (err)
  trusted
  modifies G.ndisp[0]
  ensures G.ndisp[0] == old(G.ndisp[0]) + 1
func (*server.serverSecureChannel).handleOpenSecureChannel(ch, id, req) (err)
  trusted
  modifies G.ndisp[0]
  ensures G.ndisp[0] == old(G.ndisp[0]) + 1
func (*server.serverSecureChannel).handleCloseSecureChannel(ch, id, req) (err)
  trusted
  modifies G.ndisp[0]
  ensures G.ndisp[0] == old(G.ndisp[0]) + 1
func (*server.serverSecureChannel).Write(ch, r, id) (err)
  trusted
  modifies G.ndisp[0]
  ensures G.ndisp[0] == old(G.ndisp[0]) + 1
func invoke ua.ServiceRequest.Header(r) (h)
  trusted
  ensures h != nil && h.RequestHandle == uf(handleOf, payload(r))
func (*server.Server).handleRequest(srv, ch, req, requestid) (err) [C21]
  noframe
  requires srv != nil && ch != nil && G.ndisp[0] == 0 && payload(req) != 0
  atcall (*server.Server).handleCloseSession(s1, c1, id1, rq) :: route: c1 == ch && id1 == requestid && is(req, *ua.CloseSessionRequest) && as(req, *ua.CloseSessionRequest) == rq && G.ndisp[0] == 0 && s1 == srv
  atcall (*server.Server).handleCancel(s1, c1, id1, rq) :: route: c1 == ch && id1 == requestid && is(req, *ua.CancelRequest) && as(req, *ua.CancelRequest) == rq && G.ndisp[0] == 0 && s1 == srv
  atcall (*server.Server).handleBrowse(s1, c1, id1, rq) :: route: c1 == ch && id1 == requestid && is(req, *ua.BrowseRequest) && as(req, *ua.BrowseRequest) == rq && G.ndisp[0] == 0 && s1 == srv
  atcall (*server.Server).handleBrowseNext(s1, c1, id1, rq) :: route: c1 == ch && id1 == requestid && is(req, *ua.BrowseNextRequest) && as(req, *ua.BrowseNextRequest) == rq && G.ndisp[0] == 0 && s1 == srv
  atcall (*server.Server).handleTranslateBrowsePathsToNodeIds(s1, c1, id1, rq) :: route: c1 == ch && id1 == requestid && is(req, *ua.TranslateBrowsePathsToNodeIDsRequest) && as(req, *ua.TranslateBrowsePathsToNodeIDsRequest) == rq && G.ndisp[0] == 0 && s1 == srv
  atcall (*server.Server).handleRegisterNodes(s1, c1, id1, rq) :: route: c1 == ch && id1 == requestid && is(req, *ua.RegisterNodesRequest) && as(req, *ua.RegisterNodesRequest) == rq && G.ndisp[0] == 0 && s1 == srv
  atcall (*server.Server).handleUnregisterNodes(s1, c1, id1, rq) :: route: c1 == ch && id1 == requestid && is(req, *ua.UnregisterNodesRequest) && as(req, *ua.UnregisterNodesRequest) == rq && G.ndisp[0] == 0 && s1 == srv
  atcall (*server.Server).handleRead(s1, c1, id1, rq) :: route: c1 == ch && id1 == requestid && is(req, *ua.ReadRequest) && as(req, *ua.ReadRequest) == rq && G.ndisp[0] == 0 && s1 == srv
  atcall (*server.Server).handleWrite(s1, c1, id1, rq) :: route: c1 == ch && id1 == requestid && is(req, *ua.WriteRequest) && as(req, *ua.WriteRequest) == rq && G.ndisp[0] == 0 && s1 == srv
  atcall (*server.Server).handleHistoryRead(s1, c1, id1, rq) :: route: c1 == ch && id1 == requestid && is(req, *ua.HistoryReadRequest) && as(req, *ua.HistoryReadRequest) == rq && G.ndisp[0] == 0 && s1 == srv
  atcall (*server.Server).handleCall(s1, c1, id1, rq) :: route: c1 == ch && id1 == requestid && is(req, *ua.CallRequest) && as(req, *ua.CallRequest) == rq && G.ndisp[0] == 0 && s1 == srv
  atcall (*server.Server).handleCreateMonitoredItems(s1, c1, id1, rq) :: route: c1 == ch && id1 == requestid && is(req, *ua.CreateMonitoredItemsRequest) && as(req, *ua.CreateMonitoredItemsRequest) == rq && G.ndisp[0] == 0 && s1 == srv
  atcall (*server.Server).handleModifyMonitoredItems(s1, c1, id1, rq) :: route: c1 == ch && id1 == requestid && is(req, *ua.ModifyMonitoredItemsRequest) && as(req, *ua.ModifyMonitoredItemsRequest) == rq && G.ndisp[0] == 0 && s1 == srv
  atcall (*server.Server).handleSetMonitoringMode(s1, c1, id1, rq) :: route: c1 == ch && id1 == requestid && is(req, *ua.SetMonitoringModeRequest) && as(req, *ua.SetMonitoringModeRequest) == rq && G.ndisp[0] == 0 && s1 == srv
  atcall (*server.Server).handleSetTriggering(s1, c1, id1, rq) :: route: c1 == ch && id1 == requestid && is(req, *ua.SetTriggeringRequest) && as(req, *ua.SetTriggeringRequest) == rq && G.ndisp[0] == 0 && s1 == srv
  atcall (*server.Server).handleDeleteMonitoredItems(s1, c1, id1, rq) :: route: c1 == ch && id1 == requestid && is(req, *ua.DeleteMonitoredItemsRequest) && as(req, *ua.DeleteMonitoredItemsRequest) == rq && G.ndisp[0] == 0 && s1 == srv
  atcall (*server.Server).handleCreateSubscription(s1, c1, id1, rq) :: route: c1 == ch && id1 == requestid && is(req, *ua.CreateSubscriptionRequest) && as(req, *ua.CreateSubscriptionRequest) == rq && G.ndisp[0] == 0 && s1 == srv
  atcall (*server.Server).handleModifySubscription(s1, c1, id1, rq) :: route: c1 == ch && id1 == requestid && is(req, *ua.ModifySubscriptionRequest) && as(req, *ua.ModifySubscriptionRequest) == rq && G.ndisp[0] == 0 && s1 == srv
  atcall (*server.Server).handleSetPublishingMode(s1, c1, id1, rq) :: route: c1 == ch && id1 == requestid && is(req, *ua.SetPublishingModeRequest) && as(req, *ua.SetPublishingModeRequest) == rq && G.ndisp[0] == 0 && s1 == srv
  atcall (*server.Server).handleDeleteSubscriptions(s1, c1, id1, rq) :: route: c1 == ch && id1 == requestid && is(req, *ua.DeleteSubscriptionsRequest) && as(req, *ua.DeleteSubscriptionsRequest) == rq && G.ndisp[0] == 0 && s1 == srv
  atcall (*server.Server).handleRepublish(s1, c1, id1, rq) :: route: c1 == ch && id1 == requestid && is(req, *ua.RepublishRequest) && as(req, *ua.RepublishRequest) == rq && G.ndisp[0] == 0 && s1 == srv
  atcall (*server.Server).handleCreateSession(s1, c1, id1, rq) :: route: c1 == ch && id1 == requestid && is(req, *ua.CreateSessionRequest) && as(req, *ua.CreateSessionRequest) == rq && G.ndisp[0] == 0 && s1 == srv
  atcall (*server.Server).handleActivateSession(s1, c1, id1, rq) :: route: c1 == ch && id1 == requestid && is(req, *ua.ActivateSessionRequest) && as(req, *ua.ActivateSessionRequest) == rq && G.ndisp[0] == 0 && s1 == srv
  atcall (*server.Server).handlePublish(s1, c1, id1, rq) :: route: c1 == ch && id1 == requestid && is(req, *ua.PublishRequest) && as(req, *ua.PublishRequest) == rq && G.ndisp[0] == 0 && s1 == srv
  atcall (*server.Server).findServers(s1, c1, id1, rq) :: route: c1 == ch && id1 == requestid && is(req, *ua.FindServersRequest) && as(req, *ua.FindServersRequest) == rq && G.ndisp[0] == 0 && s1 == srv
  atcall (*server.Server).getEndpoints(s1, c1, id1, rq) :: route: c1 == ch && id1 == requestid && is(req, *ua.GetEndpointsRequest) && as(req, *ua.GetEndpointsRequest) == rq && G.ndisp[0] == 0 && s1 == srv
  atcall (*server.serverSecureChannel).handleOpenSecureChannel(c1, id1, rq) :: route: c1 == ch && id1 == requestid && is(req, *ua.OpenSecureChannelRequest) && as(req, *ua.OpenSecureChannelRequest) == rq && G.ndisp[0] == 0
  atcall (*server.serverSecureChannel).handleCloseSecureChannel(c1, id1, rq) :: route: c1 == ch && id1 == requestid && is(req, *ua.CloseSecureChannelRequest) && as(req, *ua.CloseSecureChannelRequest) == rq && G.ndisp[0] == 0
  atcall (*server.serverSecureChannel).Write(c, r, id) :: unsupported: c == ch && id == requestid && G.ndisp[0] == 0 && is(r, *ua.ServiceFault) && as(r, *ua.ServiceFault).ResponseHeader.ServiceResult == 0x800b0000 && as(r, *ua.ServiceFault).ResponseHeader.RequestHandle == uf(handleOf, payload(req))
  atcall (*server.serverSecureChannel).Write(c, r, id) :: supported: !is(req, *ua.CloseSessionRequest) && !is(req, *ua.CancelRequest) && !is(req, *ua.BrowseRequest) && !is(req, *ua.BrowseNextRequest) && !is(req, *ua.TranslateBrowsePathsToNodeIDsRequest) && !is(req, *ua.RegisterNodesRequest) && !is(req, *ua.UnregisterNodesRequest) && !is(req, *ua.ReadRequest) && !is(req, *ua.WriteRequest) && !is(req, *ua.HistoryReadRequest) && !is(req, *ua.CallRequest) && !is(req, *ua.CreateMonitoredItemsRequest) && !is(req, *ua.ModifyMonitoredItemsRequest) && !is(req, *ua.SetMonitoringModeRequest) && !is(req, *ua.SetTriggeringRequest) && !is(req, *ua.DeleteMonitoredItemsRequest) && !is(req, *ua.CreateSubscriptionRequest) && !is(req, *ua.ModifySubscriptionRequest) && !is(req, *ua.SetPublishingModeRequest) && !is(req, *ua.DeleteSubscriptionsRequest) && !is(req, *ua.RepublishRequest) && !is(req, *ua.CreateSessionRequest) && !is(req, *ua.ActivateSessionRequest) && !is(req, *ua.PublishRequest) && !is(req, *ua.FindServersRequest) && !is(req, *ua.GetEndpointsRequest) && !is(req, *ua.OpenSecureChannelRequest) && !is(req, *ua.CloseSecureChannelRequest)
  ensures one: G.ndisp[0] == 1
