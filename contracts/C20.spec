# Generated by gen_c20.py. Ownership of subscriptions in every service handler.
package server
ghost sess int
ghost sub int
ghost subok bool
ghost got int
ghost cnt int
ghost foreign bool row
frozen server.Subscription.sessionId server.Session.sessionId server.Subscription.id server.Server.sessionManager
define S() = typed(*server.Session, G.sess[0])
define mine(s) = s.sessionId == S().sessionId
func (*server.SessionManager).Get(m, tok) (s, ok)
  trusted
  modifies G.sess[0]
  ensures ok ==> s != nil && G.sess[0] == base(s) && s == typed(*server.Session, G.sess[0])
  ensures !ok ==> s == nil
func (*server.SubscriptionManager).Get(m, id) (s, ok)
  trusted
  modifies G.sub[0], G.subok[0], G.got[0], G.cnt[0], G.foreign[0]
  ensures G.subok[0] == ok && G.got[0] == id && G.cnt[0] == old(G.cnt[0]) + 1
  ensures G.foreign[0] == rowupd(old(G.foreign[0]), old(G.cnt[0]), !(ok && mine(s)))
  ensures ok ==> s != nil && G.sub[0] == base(s) && s == typed(*server.Subscription, G.sub[0])
  ensures !ok ==> s == nil
func (*server.SubscriptionManager).GetBySession(m, s) (r)
  trusted
  ensures forall(i, off(r), off(r) + len(r), r[i - off(r)] != nil && r[i - off(r)].sessionId == s.sessionId)
func server.NewSubscription(m, session, pi, lc, kc, mn, en, prio) (r)
  trusted
  ensures r != nil && r.sessionId == session.sessionId
func (*server.serverSecureChannel).Write(ch, r, id) (err)
  trusted
func (*server.serverSecureChannel).Abort(ch, reason, message) (err)
  trusted
func (*server.Session).SecureChannelId(s) (r)
  trusted
func (*server.SessionManager).Delete(m, s)
  trusted
pure opaquetasks
# the obligations read frozen fields and the results of Get and GetBySession only, none of which these calls can change
pure (*server.SubscriptionManager).Add (*server.SubscriptionManager).Delete (*server.SubscriptionManager).Len
noinline server.selectTimestamps (*server.Server).readValue (*server.Server).writeValue (*server.Server).validateIndexRange (*server.Server).follow (*server.Server).target server.NewDataChangeMonitoredItem server.NewEventMonitoredItem
noinline (*server.NamespaceManager).FindNode (*server.NamespaceManager).IsSubtype (*server.NamespaceManager).FindComponent (*server.SubscriptionManager).Add (*server.SubscriptionManager).Delete (*server.SubscriptionManager).Len
noinline (*server.Session).addBrowseContinuationPoint (*server.Session).removeBrowseContinuationPoint (*server.Session).addPublishRequest (*server.Session).removePublishRequest
noinline server.IsUserPermitted (*server.NamespaceManager).FindVariantType (*server.NamespaceManager).FindSuperType (*server.VariableNode).UserRolePermissions (*server.ObjectNode).UserRolePermissions (*server.VariableNode).UserAccessLevel (*server.MethodNode).UserExecutable (*server.MethodNode).UserRolePermissions ua.ToNodeID
noinline (*server.MethodNode).callMethodHandler (*server.Server).Endpoints (*server.Server).buildEndpointDescriptions server.NewSession (*server.SessionManager).Add (*server.Session).SetUserIdentity (*server.Session).SetSecureChannelId (*server.Session).SetUserRoles (*server.serverSecureChannel).LocalEndpoint server.getNextNonce (*server.Server).NamespaceUris (*server.Server).ServerCapabilities

noinline (*server.Subscription).Delete
pure (*server.Subscription).Delete
noinline (*server.Subscription).Modify
pure (*server.Subscription).Modify
noinline (*server.Subscription).Items
pure (*server.Subscription).Items
noinline (*server.Subscription).FindItem
pure (*server.Subscription).FindItem
noinline (*server.Subscription).AppendItem
pure (*server.Subscription).AppendItem
noinline (*server.Subscription).DeleteItem
pure (*server.Subscription).DeleteItem
noinline (*server.Subscription).acknowledge
pure (*server.Subscription).acknowledge
noinline (*server.Subscription).handleLatePublishRequest
pure (*server.Subscription).handleLatePublishRequest
noinline (*server.Subscription).SetPublishingMode
pure (*server.Subscription).SetPublishingMode
noinline (*server.Subscription).startPublishing
pure (*server.Subscription).startPublishing
noinline (*server.Subscription).stopPublishing
pure (*server.Subscription).stopPublishing
noinline (*server.Subscription).resendData
pure (*server.Subscription).resendData
noinline (*server.Subscription).IsExpired
pure (*server.Subscription).IsExpired
noinline (*server.Subscription).publish
pure (*server.Subscription).publish
func (*server.Server).handleCloseSession(srv, ch, requestid, req) (err) [C20]
  noframe
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && G.sess[0] == 0 && !G.subok[0] && G.cnt[0] == 0
  atcall (*server.Subscription).Delete(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).Modify(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).Items(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).FindItem(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).AppendItem(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).DeleteItem(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).acknowledge(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).handleLatePublishRequest(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).SetPublishingMode(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).startPublishing(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).stopPublishing(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).resendData(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).IsExpired(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).publish(s) :: own: G.sess[0] != 0 && mine(s)
  atcall write server.Subscription(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.SubscriptionManager).Delete(m, s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.SubscriptionManager).GetBySession(m, s) :: own: base(s) == G.sess[0]
  atcall server.NewSubscription(m, s) :: own: base(s) == G.sess[0]
func (*server.Server).handleCreateMonitoredItems(srv, ch, requestid, req) (err) [C20]
  noframe
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && G.sess[0] == 0 && !G.subok[0] && G.cnt[0] == 0
  atcall (*server.Subscription).Delete(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).Modify(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).Items(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).FindItem(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).AppendItem(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).DeleteItem(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).acknowledge(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).handleLatePublishRequest(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).SetPublishingMode(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).startPublishing(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).stopPublishing(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).resendData(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).IsExpired(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).publish(s) :: own: G.sess[0] != 0 && mine(s)
  atcall write server.Subscription(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.SubscriptionManager).Delete(m, s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.SubscriptionManager).GetBySession(m, s) :: own: base(s) == G.sess[0]
  atcall server.NewSubscription(m, s) :: own: base(s) == G.sess[0]
  atcall (*server.SubscriptionManager).Get(m, id) :: id: id == old(req.SubscriptionID)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: refuse: is(r, *ua.ServiceFault) || G.subok[0] && mine(typed(*server.Subscription, G.sub[0]))
  atcall (*server.serverSecureChannel).Write(c, r, id) :: reason: G.cnt[0] > 0 && !(G.subok[0] && mine(typed(*server.Subscription, G.sub[0]))) ==> as(r, *ua.ServiceFault).ResponseHeader.ServiceResult == ua.BadSubscriptionIDInvalid
func (*server.Server).handleModifyMonitoredItems(srv, ch, requestid, req) (err) [C20]
  noframe
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && G.sess[0] == 0 && !G.subok[0] && G.cnt[0] == 0
  atcall (*server.Subscription).Delete(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).Modify(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).Items(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).FindItem(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).AppendItem(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).DeleteItem(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).acknowledge(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).handleLatePublishRequest(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).SetPublishingMode(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).startPublishing(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).stopPublishing(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).resendData(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).IsExpired(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).publish(s) :: own: G.sess[0] != 0 && mine(s)
  atcall write server.Subscription(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.SubscriptionManager).Delete(m, s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.SubscriptionManager).GetBySession(m, s) :: own: base(s) == G.sess[0]
  atcall server.NewSubscription(m, s) :: own: base(s) == G.sess[0]
  atcall (*server.SubscriptionManager).Get(m, id) :: id: id == old(req.SubscriptionID)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: refuse: is(r, *ua.ServiceFault) || G.subok[0] && mine(typed(*server.Subscription, G.sub[0]))
  atcall (*server.serverSecureChannel).Write(c, r, id) :: reason: G.cnt[0] > 0 && !(G.subok[0] && mine(typed(*server.Subscription, G.sub[0]))) ==> as(r, *ua.ServiceFault).ResponseHeader.ServiceResult == ua.BadSubscriptionIDInvalid
func (*server.Server).handleSetMonitoringMode(srv, ch, requestid, req) (err) [C20]
  noframe
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && G.sess[0] == 0 && !G.subok[0] && G.cnt[0] == 0
  atcall (*server.Subscription).Delete(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).Modify(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).Items(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).FindItem(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).AppendItem(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).DeleteItem(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).acknowledge(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).handleLatePublishRequest(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).SetPublishingMode(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).startPublishing(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).stopPublishing(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).resendData(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).IsExpired(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).publish(s) :: own: G.sess[0] != 0 && mine(s)
  atcall write server.Subscription(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.SubscriptionManager).Delete(m, s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.SubscriptionManager).GetBySession(m, s) :: own: base(s) == G.sess[0]
  atcall server.NewSubscription(m, s) :: own: base(s) == G.sess[0]
  atcall (*server.SubscriptionManager).Get(m, id) :: id: id == old(req.SubscriptionID)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: refuse: is(r, *ua.ServiceFault) || G.subok[0] && mine(typed(*server.Subscription, G.sub[0]))
  atcall (*server.serverSecureChannel).Write(c, r, id) :: reason: G.cnt[0] > 0 && !(G.subok[0] && mine(typed(*server.Subscription, G.sub[0]))) ==> as(r, *ua.ServiceFault).ResponseHeader.ServiceResult == ua.BadSubscriptionIDInvalid
func (*server.Server).handleSetTriggering(srv, ch, requestid, req) (err) [C20]
  noframe
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && G.sess[0] == 0 && !G.subok[0] && G.cnt[0] == 0
  atcall (*server.Subscription).Delete(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).Modify(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).Items(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).FindItem(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).AppendItem(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).DeleteItem(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).acknowledge(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).handleLatePublishRequest(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).SetPublishingMode(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).startPublishing(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).stopPublishing(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).resendData(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).IsExpired(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).publish(s) :: own: G.sess[0] != 0 && mine(s)
  atcall write server.Subscription(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.SubscriptionManager).Delete(m, s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.SubscriptionManager).GetBySession(m, s) :: own: base(s) == G.sess[0]
  atcall server.NewSubscription(m, s) :: own: base(s) == G.sess[0]
  atcall (*server.SubscriptionManager).Get(m, id) :: id: id == old(req.SubscriptionID)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: refuse: is(r, *ua.ServiceFault) || G.subok[0] && mine(typed(*server.Subscription, G.sub[0]))
  atcall (*server.serverSecureChannel).Write(c, r, id) :: reason: G.cnt[0] > 0 && !(G.subok[0] && mine(typed(*server.Subscription, G.sub[0]))) ==> as(r, *ua.ServiceFault).ResponseHeader.ServiceResult == ua.BadSubscriptionIDInvalid
func (*server.Server).handleDeleteMonitoredItems(srv, ch, requestid, req) (err) [C20]
  noframe
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && G.sess[0] == 0 && !G.subok[0] && G.cnt[0] == 0
  atcall (*server.Subscription).Delete(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).Modify(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).Items(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).FindItem(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).AppendItem(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).DeleteItem(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).acknowledge(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).handleLatePublishRequest(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).SetPublishingMode(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).startPublishing(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).stopPublishing(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).resendData(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).IsExpired(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).publish(s) :: own: G.sess[0] != 0 && mine(s)
  atcall write server.Subscription(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.SubscriptionManager).Delete(m, s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.SubscriptionManager).GetBySession(m, s) :: own: base(s) == G.sess[0]
  atcall server.NewSubscription(m, s) :: own: base(s) == G.sess[0]
  atcall (*server.SubscriptionManager).Get(m, id) :: id: id == old(req.SubscriptionID)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: refuse: is(r, *ua.ServiceFault) || G.subok[0] && mine(typed(*server.Subscription, G.sub[0]))
  atcall (*server.serverSecureChannel).Write(c, r, id) :: reason: G.cnt[0] > 0 && !(G.subok[0] && mine(typed(*server.Subscription, G.sub[0]))) ==> as(r, *ua.ServiceFault).ResponseHeader.ServiceResult == ua.BadSubscriptionIDInvalid
func (*server.Server).handleCreateSubscription(srv, ch, requestid, req) (err) [C20]
  noframe
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && G.sess[0] == 0 && !G.subok[0] && G.cnt[0] == 0
  atcall (*server.Subscription).Delete(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).Modify(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).Items(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).FindItem(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).AppendItem(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).DeleteItem(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).acknowledge(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).handleLatePublishRequest(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).SetPublishingMode(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).startPublishing(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).stopPublishing(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).resendData(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).IsExpired(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).publish(s) :: own: G.sess[0] != 0 && mine(s)
  atcall write server.Subscription(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.SubscriptionManager).Delete(m, s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.SubscriptionManager).GetBySession(m, s) :: own: base(s) == G.sess[0]
  atcall server.NewSubscription(m, s) :: own: base(s) == G.sess[0]
func (*server.Server).handleModifySubscription(srv, ch, requestid, req) (err) [C20]
  noframe
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && G.sess[0] == 0 && !G.subok[0] && G.cnt[0] == 0
  atcall (*server.Subscription).Delete(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).Modify(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).Items(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).FindItem(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).AppendItem(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).DeleteItem(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).acknowledge(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).handleLatePublishRequest(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).SetPublishingMode(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).startPublishing(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).stopPublishing(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).resendData(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).IsExpired(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).publish(s) :: own: G.sess[0] != 0 && mine(s)
  atcall write server.Subscription(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.SubscriptionManager).Delete(m, s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.SubscriptionManager).GetBySession(m, s) :: own: base(s) == G.sess[0]
  atcall server.NewSubscription(m, s) :: own: base(s) == G.sess[0]
  atcall (*server.SubscriptionManager).Get(m, id) :: id: id == old(req.SubscriptionID)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: refuse: is(r, *ua.ServiceFault) || G.subok[0] && mine(typed(*server.Subscription, G.sub[0]))
  atcall (*server.serverSecureChannel).Write(c, r, id) :: reason: G.cnt[0] > 0 && !(G.subok[0] && mine(typed(*server.Subscription, G.sub[0]))) ==> as(r, *ua.ServiceFault).ResponseHeader.ServiceResult == ua.BadSubscriptionIDInvalid
func (*server.Server).handleSetPublishingMode(srv, ch, requestid, req) (err) [C20]
  noframe
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && G.sess[0] == 0 && !G.subok[0] && G.cnt[0] == 0
  atcall (*server.Subscription).Delete(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).Modify(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).Items(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).FindItem(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).AppendItem(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).DeleteItem(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).acknowledge(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).handleLatePublishRequest(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).SetPublishingMode(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).startPublishing(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).stopPublishing(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).resendData(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).IsExpired(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).publish(s) :: own: G.sess[0] != 0 && mine(s)
  atcall write server.Subscription(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.SubscriptionManager).Delete(m, s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.SubscriptionManager).GetBySession(m, s) :: own: base(s) == G.sess[0]
  atcall server.NewSubscription(m, s) :: own: base(s) == G.sess[0]
  atcall (*server.SubscriptionManager).Get(m, id) :: id: G.cnt[0] < len(req.SubscriptionIDs) && id == req.SubscriptionIDs[G.cnt[0]]
  invariant G.cnt[0] == $k && $k <= len(req.SubscriptionIDs)
  invariant len($s) == len(req.SubscriptionIDs) && forall(j, off($s), off($s) + $k, G.foreign[0][j - off($s)] ==> $s[j - off($s)] == ua.BadSubscriptionIDInvalid)
  invariant len($s) == $k && forall(j, off($s), off($s) + $k, G.foreign[0][j - off($s)] ==> $s[j - off($s)] == ua.BadSubscriptionIDInvalid)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: results: is(r, *ua.SetPublishingModeResponse) ==> len(as(r, *ua.SetPublishingModeResponse).Results) == len(req.SubscriptionIDs) && G.cnt[0] == len(as(r, *ua.SetPublishingModeResponse).Results) && forall(j, off(as(r, *ua.SetPublishingModeResponse).Results), off(as(r, *ua.SetPublishingModeResponse).Results) + len(as(r, *ua.SetPublishingModeResponse).Results), G.foreign[0][j - off(as(r, *ua.SetPublishingModeResponse).Results)] ==> as(r, *ua.SetPublishingModeResponse).Results[j - off(as(r, *ua.SetPublishingModeResponse).Results)] == ua.BadSubscriptionIDInvalid)
func (*server.Server).handlePublish(srv, ch, requestid, req) (err) [C20]
  noframe
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && G.sess[0] == 0 && !G.subok[0] && G.cnt[0] == 0
  atcall (*server.Subscription).Delete(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).Modify(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).Items(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).FindItem(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).AppendItem(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).DeleteItem(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).acknowledge(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).handleLatePublishRequest(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).SetPublishingMode(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).startPublishing(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).stopPublishing(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).resendData(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).IsExpired(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).publish(s) :: own: G.sess[0] != 0 && mine(s)
  atcall write server.Subscription(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.SubscriptionManager).Delete(m, s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.SubscriptionManager).GetBySession(m, s) :: own: base(s) == G.sess[0]
  atcall server.NewSubscription(m, s) :: own: base(s) == G.sess[0]
  atcall (*server.SubscriptionManager).Get(m, id) :: id: G.cnt[0] < len(req.SubscriptionAcknowledgements) && id == req.SubscriptionAcknowledgements[G.cnt[0]].SubscriptionID
  invariant G.cnt[0] == $k && $k <= len(req.SubscriptionAcknowledgements)
  invariant len($s) == len(req.SubscriptionAcknowledgements) && forall(j, off($s), off($s) + $k, G.foreign[0][j - off($s)] ==> $s[j - off($s)] == ua.BadSubscriptionIDInvalid)
  invariant len($s) == $k && forall(j, off($s), off($s) + $k, G.foreign[0][j - off($s)] ==> $s[j - off($s)] == ua.BadSubscriptionIDInvalid)
  atcall (*server.Session).addPublishRequest(s, c, id, rq, res) :: results: len(res) == len(req.SubscriptionAcknowledgements) && G.cnt[0] == len(res) && forall(j, off(res), off(res) + len(res), G.foreign[0][j - off(res)] ==> res[j - off(res)] == ua.BadSubscriptionIDInvalid)
  atcall (*server.Subscription).handleLatePublishRequest(s, c, id, rq, res) :: results: len(res) == len(req.SubscriptionAcknowledgements) && G.cnt[0] == len(res) && forall(j, off(res), off(res) + len(res), G.foreign[0][j - off(res)] ==> res[j - off(res)] == ua.BadSubscriptionIDInvalid)
func (*server.Server).handleRepublish(srv, ch, requestid, req) (err) [C20]
  noframe
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && G.sess[0] == 0 && !G.subok[0] && G.cnt[0] == 0
  atcall (*server.Subscription).Delete(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).Modify(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).Items(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).FindItem(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).AppendItem(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).DeleteItem(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).acknowledge(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).handleLatePublishRequest(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).SetPublishingMode(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).startPublishing(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).stopPublishing(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).resendData(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).IsExpired(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).publish(s) :: own: G.sess[0] != 0 && mine(s)
  atcall write server.Subscription(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.SubscriptionManager).Delete(m, s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.SubscriptionManager).GetBySession(m, s) :: own: base(s) == G.sess[0]
  atcall server.NewSubscription(m, s) :: own: base(s) == G.sess[0]
  atcall (*server.SubscriptionManager).Get(m, id) :: id: id == old(req.SubscriptionID)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: refuse: is(r, *ua.ServiceFault) || G.subok[0] && mine(typed(*server.Subscription, G.sub[0]))
  atcall (*server.serverSecureChannel).Write(c, r, id) :: reason: G.cnt[0] > 0 && !(G.subok[0] && mine(typed(*server.Subscription, G.sub[0]))) ==> as(r, *ua.ServiceFault).ResponseHeader.ServiceResult == ua.BadSubscriptionIDInvalid
func (*server.Server).handleDeleteSubscriptions(srv, ch, requestid, req) (err) [C20]
  noframe
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && G.sess[0] == 0 && !G.subok[0] && G.cnt[0] == 0
  atcall (*server.Subscription).Delete(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).Modify(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).Items(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).FindItem(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).AppendItem(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).DeleteItem(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).acknowledge(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).handleLatePublishRequest(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).SetPublishingMode(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).startPublishing(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).stopPublishing(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).resendData(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).IsExpired(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).publish(s) :: own: G.sess[0] != 0 && mine(s)
  atcall write server.Subscription(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.SubscriptionManager).Delete(m, s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.SubscriptionManager).GetBySession(m, s) :: own: base(s) == G.sess[0]
  atcall server.NewSubscription(m, s) :: own: base(s) == G.sess[0]
  atcall (*server.SubscriptionManager).Get(m, id) :: id: G.cnt[0] < len(req.SubscriptionIDs) && id == req.SubscriptionIDs[G.cnt[0]]
  invariant G.cnt[0] == $k && $k <= len(req.SubscriptionIDs)
  invariant len($s) == len(req.SubscriptionIDs) && forall(j, off($s), off($s) + $k, G.foreign[0][j - off($s)] ==> $s[j - off($s)] == ua.BadSubscriptionIDInvalid)
  invariant len($s) == $k && forall(j, off($s), off($s) + $k, G.foreign[0][j - off($s)] ==> $s[j - off($s)] == ua.BadSubscriptionIDInvalid)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: results: is(r, *ua.DeleteSubscriptionsResponse) ==> len(as(r, *ua.DeleteSubscriptionsResponse).Results) == len(req.SubscriptionIDs) && G.cnt[0] == len(as(r, *ua.DeleteSubscriptionsResponse).Results) && forall(j, off(as(r, *ua.DeleteSubscriptionsResponse).Results), off(as(r, *ua.DeleteSubscriptionsResponse).Results) + len(as(r, *ua.DeleteSubscriptionsResponse).Results), G.foreign[0][j - off(as(r, *ua.DeleteSubscriptionsResponse).Results)] ==> as(r, *ua.DeleteSubscriptionsResponse).Results[j - off(as(r, *ua.DeleteSubscriptionsResponse).Results)] == ua.BadSubscriptionIDInvalid)
func (*server.Server).handleCancel(srv, ch, requestid, req) (err) [C20]
  noframe
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && G.sess[0] == 0 && !G.subok[0] && G.cnt[0] == 0
  atcall (*server.Subscription).Delete(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).Modify(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).Items(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).FindItem(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).AppendItem(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).DeleteItem(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).acknowledge(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).handleLatePublishRequest(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).SetPublishingMode(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).startPublishing(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).stopPublishing(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).resendData(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).IsExpired(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).publish(s) :: own: G.sess[0] != 0 && mine(s)
  atcall write server.Subscription(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.SubscriptionManager).Delete(m, s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.SubscriptionManager).GetBySession(m, s) :: own: base(s) == G.sess[0]
  atcall server.NewSubscription(m, s) :: own: base(s) == G.sess[0]
func (*server.Server).handleBrowse(srv, ch, requestid, req) (err) [C20]
  noframe
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && G.sess[0] == 0 && !G.subok[0] && G.cnt[0] == 0
  atcall (*server.Subscription).Delete(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).Modify(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).Items(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).FindItem(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).AppendItem(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).DeleteItem(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).acknowledge(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).handleLatePublishRequest(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).SetPublishingMode(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).startPublishing(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).stopPublishing(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).resendData(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).IsExpired(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).publish(s) :: own: G.sess[0] != 0 && mine(s)
  atcall write server.Subscription(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.SubscriptionManager).Delete(m, s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.SubscriptionManager).GetBySession(m, s) :: own: base(s) == G.sess[0]
  atcall server.NewSubscription(m, s) :: own: base(s) == G.sess[0]
func (*server.Server).handleBrowseNext(srv, ch, requestid, req) (err) [C20]
  noframe
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && G.sess[0] == 0 && !G.subok[0] && G.cnt[0] == 0
  atcall (*server.Subscription).Delete(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).Modify(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).Items(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).FindItem(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).AppendItem(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).DeleteItem(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).acknowledge(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).handleLatePublishRequest(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).SetPublishingMode(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).startPublishing(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).stopPublishing(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).resendData(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).IsExpired(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).publish(s) :: own: G.sess[0] != 0 && mine(s)
  atcall write server.Subscription(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.SubscriptionManager).Delete(m, s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.SubscriptionManager).GetBySession(m, s) :: own: base(s) == G.sess[0]
  atcall server.NewSubscription(m, s) :: own: base(s) == G.sess[0]
func (*server.Server).handleTranslateBrowsePathsToNodeIds(srv, ch, requestid, req) (err) [C20]
  noframe
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && G.sess[0] == 0 && !G.subok[0] && G.cnt[0] == 0
  atcall (*server.Subscription).Delete(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).Modify(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).Items(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).FindItem(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).AppendItem(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).DeleteItem(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).acknowledge(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).handleLatePublishRequest(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).SetPublishingMode(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).startPublishing(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).stopPublishing(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).resendData(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).IsExpired(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).publish(s) :: own: G.sess[0] != 0 && mine(s)
  atcall write server.Subscription(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.SubscriptionManager).Delete(m, s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.SubscriptionManager).GetBySession(m, s) :: own: base(s) == G.sess[0]
  atcall server.NewSubscription(m, s) :: own: base(s) == G.sess[0]
func (*server.Server).handleRegisterNodes(srv, ch, requestid, req) (err) [C20]
  noframe
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && G.sess[0] == 0 && !G.subok[0] && G.cnt[0] == 0
  atcall (*server.Subscription).Delete(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).Modify(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).Items(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).FindItem(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).AppendItem(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).DeleteItem(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).acknowledge(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).handleLatePublishRequest(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).SetPublishingMode(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).startPublishing(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).stopPublishing(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).resendData(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).IsExpired(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).publish(s) :: own: G.sess[0] != 0 && mine(s)
  atcall write server.Subscription(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.SubscriptionManager).Delete(m, s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.SubscriptionManager).GetBySession(m, s) :: own: base(s) == G.sess[0]
  atcall server.NewSubscription(m, s) :: own: base(s) == G.sess[0]
func (*server.Server).handleUnregisterNodes(srv, ch, requestid, req) (err) [C20]
  noframe
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && G.sess[0] == 0 && !G.subok[0] && G.cnt[0] == 0
  atcall (*server.Subscription).Delete(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).Modify(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).Items(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).FindItem(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).AppendItem(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).DeleteItem(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).acknowledge(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).handleLatePublishRequest(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).SetPublishingMode(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).startPublishing(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).stopPublishing(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).resendData(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).IsExpired(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).publish(s) :: own: G.sess[0] != 0 && mine(s)
  atcall write server.Subscription(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.SubscriptionManager).Delete(m, s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.SubscriptionManager).GetBySession(m, s) :: own: base(s) == G.sess[0]
  atcall server.NewSubscription(m, s) :: own: base(s) == G.sess[0]
func (*server.Server).handleRead(srv, ch, requestid, req) (err) [C20]
  noframe
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && G.sess[0] == 0 && !G.subok[0] && G.cnt[0] == 0
  atcall (*server.Subscription).Delete(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).Modify(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).Items(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).FindItem(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).AppendItem(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).DeleteItem(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).acknowledge(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).handleLatePublishRequest(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).SetPublishingMode(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).startPublishing(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).stopPublishing(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).resendData(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).IsExpired(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).publish(s) :: own: G.sess[0] != 0 && mine(s)
  atcall write server.Subscription(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.SubscriptionManager).Delete(m, s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.SubscriptionManager).GetBySession(m, s) :: own: base(s) == G.sess[0]
  atcall server.NewSubscription(m, s) :: own: base(s) == G.sess[0]
func (*server.Server).handleWrite(srv, ch, requestid, req) (err) [C20]
  noframe
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && G.sess[0] == 0 && !G.subok[0] && G.cnt[0] == 0
  atcall (*server.Subscription).Delete(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).Modify(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).Items(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).FindItem(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).AppendItem(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).DeleteItem(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).acknowledge(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).handleLatePublishRequest(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).SetPublishingMode(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).startPublishing(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).stopPublishing(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).resendData(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).IsExpired(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).publish(s) :: own: G.sess[0] != 0 && mine(s)
  atcall write server.Subscription(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.SubscriptionManager).Delete(m, s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.SubscriptionManager).GetBySession(m, s) :: own: base(s) == G.sess[0]
  atcall server.NewSubscription(m, s) :: own: base(s) == G.sess[0]
func (*server.Server).handleHistoryRead(srv, ch, requestid, req) (err) [C20]
  noframe
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && G.sess[0] == 0 && !G.subok[0] && G.cnt[0] == 0
  atcall (*server.Subscription).Delete(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).Modify(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).Items(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).FindItem(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).AppendItem(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).DeleteItem(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).acknowledge(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).handleLatePublishRequest(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).SetPublishingMode(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).startPublishing(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).stopPublishing(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).resendData(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).IsExpired(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).publish(s) :: own: G.sess[0] != 0 && mine(s)
  atcall write server.Subscription(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.SubscriptionManager).Delete(m, s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.SubscriptionManager).GetBySession(m, s) :: own: base(s) == G.sess[0]
  atcall server.NewSubscription(m, s) :: own: base(s) == G.sess[0]
func (*server.Server).handleCall(srv, ch, requestid, req) (err) [C20]
  noframe
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && G.sess[0] == 0 && !G.subok[0] && G.cnt[0] == 0
  atcall (*server.Subscription).Delete(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).Modify(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).Items(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).FindItem(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).AppendItem(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).DeleteItem(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).acknowledge(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).handleLatePublishRequest(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).SetPublishingMode(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).startPublishing(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).stopPublishing(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).resendData(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).IsExpired(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.Subscription).publish(s) :: own: G.sess[0] != 0 && mine(s)
  atcall write server.Subscription(s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.SubscriptionManager).Delete(m, s) :: own: G.sess[0] != 0 && mine(s)
  atcall (*server.SubscriptionManager).GetBySession(m, s) :: own: base(s) == G.sess[0]
  atcall server.NewSubscription(m, s) :: own: base(s) == G.sess[0]
callerof (*server.Subscription).Items(session) [C20]
  noframe
  atcall (*server.Subscription).Items(s) :: own: session != nil && s.session == session
callerof (*server.Subscription).resendData(session) [C20]
  noframe
  atcall (*server.Subscription).resendData(s) :: own: session != nil && s.session == session
