# Generated by gen_c09.py. Session gate of every session-scoped service handler.
# Get and SecureChannelId are abstracted by ghosts: okget/sess record the last session found for the request's
# token, sid the channel id the session was bound to when it was read. Their bodies are verified in C09_session.spec.
package server
ghost okget bool
ghost sess int
ghost sid int
ghost nresp int
ghost naborted int
define gate(m, ch) = G.okget[m] && G.sid[G.sess[m]] == old(ch.channelID) && G.sid[G.sess[m]] != 0
define faultcode(r) = as(r, *ua.ServiceFault).ResponseHeader.ServiceResult
func (*server.SessionManager).Get(m, tok) (s, ok)
  trusted
  modifies G.okget[m], G.sess[m]
  ensures ok == G.okget[m]
  ensures ok ==> s != nil && G.sess[m] == base(s) && ufb(registered, m, s, tok)
  ensures !ok ==> s == nil
func (*server.Session).SecureChannelId(s) (r)
  trusted
  modifies G.sid[s]
  ensures r == G.sid[s]
func (*server.serverSecureChannel).Write(ch, r, id) (err)
  trusted
  modifies G.nresp[ch]
  ensures G.nresp[ch] == old(G.nresp[ch]) + 1
func (*server.serverSecureChannel).Abort(ch, reason, message) (err)
  trusted
  modifies G.naborted[ch]
  ensures G.naborted[ch] == old(G.naborted[ch]) + 1
func (*server.SessionManager).Delete(m, s)
  trusted
noinline server.selectTimestamps (*server.Server).readValue (*server.Server).writeValue (*server.Server).validateIndexRange (*server.Server).follow (*server.Server).target server.NewSubscription server.NewDataChangeMonitoredItem server.NewEventMonitoredItem
noinline (*server.NamespaceManager).FindNode (*server.NamespaceManager).IsSubtype (*server.NamespaceManager).FindComponent (*server.SubscriptionManager).Get (*server.SubscriptionManager).GetBySession (*server.SubscriptionManager).Add (*server.SubscriptionManager).Delete (*server.SubscriptionManager).Len
noinline (*server.Session).addBrowseContinuationPoint (*server.Session).removeBrowseContinuationPoint (*server.Session).addPublishRequest (*server.Session).removePublishRequest
noinline (*server.Subscription).Delete (*server.Subscription).Modify (*server.Subscription).FindItem (*server.Subscription).AppendItem (*server.Subscription).DeleteItem (*server.Subscription).acknowledge (*server.Subscription).handleLatePublishRequest (*server.Subscription).SetPublishingMode (*server.Subscription).startPublishing
noinline server.IsUserPermitted (*server.NamespaceManager).FindVariantType (*server.NamespaceManager).FindSuperType (*server.VariableNode).UserRolePermissions (*server.ObjectNode).UserRolePermissions (*server.VariableNode).UserAccessLevel (*server.MethodNode).UserExecutable (*server.MethodNode).UserRolePermissions ua.ToNodeID
# worker tasks are submitted only behind the gate; what they do is not followed here
pure opaquetasks
noinline (*server.MethodNode).callMethodHandler (*server.Server).NamespaceUris (*server.Server).ServerCapabilities

func (*server.Server).handleCloseSession(srv, ch, requestid, req) (err) [C09]
  noframe
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && !G.okget[srv.sessionManager]
  atcall (*server.serverSecureChannel).Write(c, r, id) :: gate: is(r, *ua.ServiceFault) || gate(old(srv.sessionManager), ch)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: reason: is(r, *ua.ServiceFault) && !gate(old(srv.sessionManager), ch) ==> faultcode(r) == ite(!G.okget[old(srv.sessionManager)], ua.BadSessionIDInvalid, ite(G.sid[G.sess[old(srv.sessionManager)]] == 0, ua.BadSessionNotActivated, ua.BadSecureChannelIDInvalid))
  atcall (*server.serverSecureChannel).Write(c, r, id) :: open: !old(ch.discoveryOnly)
  atcall (*server.SessionManager).Get(m, tok) :: token: tok == old(req.RequestHeader.AuthenticationToken)
  atcall (*server.SessionManager).Delete(m, s) :: expired: gate(old(srv.sessionManager), ch) || G.okget[old(srv.sessionManager)] && G.sid[G.sess[old(srv.sessionManager)]] == 0 && base(s) == G.sess[old(srv.sessionManager)]
  atcall (*server.SubscriptionManager).Get(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.SubscriptionManager).GetBySession(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.SubscriptionManager).Add(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.SubscriptionManager).Delete(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.NamespaceManager).FindNode(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Server).readValue(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Server).writeValue(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).addPublishRequest(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).removePublishRequest(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).addBrowseContinuationPoint(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).removeBrowseContinuationPoint(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall server.NewSubscription(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).Delete(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*github.com/gammazero/workerpool.WorkerPool).Submit(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).SetPublishingMode(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).Modify(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).acknowledge(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).FindItem(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).AppendItem(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).DeleteItem(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).handleLatePublishRequest(a0) :: gate: gate(old(srv.sessionManager), ch)
func (*server.Server).handleCancel(srv, ch, requestid, req) (err) [C09]
  noframe
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && !G.okget[srv.sessionManager]
  atcall (*server.serverSecureChannel).Write(c, r, id) :: gate: is(r, *ua.ServiceFault) || gate(old(srv.sessionManager), ch)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: reason: is(r, *ua.ServiceFault) && !gate(old(srv.sessionManager), ch) ==> faultcode(r) == ite(!G.okget[old(srv.sessionManager)], ua.BadSessionIDInvalid, ite(G.sid[G.sess[old(srv.sessionManager)]] == 0, ua.BadSessionNotActivated, ua.BadSecureChannelIDInvalid))
  atcall (*server.serverSecureChannel).Write(c, r, id) :: open: !old(ch.discoveryOnly)
  atcall (*server.SessionManager).Get(m, tok) :: token: tok == old(req.RequestHeader.AuthenticationToken)
  atcall (*server.SessionManager).Delete(m, s) :: expired: gate(old(srv.sessionManager), ch) || G.okget[old(srv.sessionManager)] && G.sid[G.sess[old(srv.sessionManager)]] == 0 && base(s) == G.sess[old(srv.sessionManager)]
  atcall (*server.SubscriptionManager).Get(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.SubscriptionManager).GetBySession(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.SubscriptionManager).Add(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.SubscriptionManager).Delete(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.NamespaceManager).FindNode(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Server).readValue(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Server).writeValue(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).addPublishRequest(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).removePublishRequest(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).addBrowseContinuationPoint(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).removeBrowseContinuationPoint(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall server.NewSubscription(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).Delete(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*github.com/gammazero/workerpool.WorkerPool).Submit(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).SetPublishingMode(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).Modify(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).acknowledge(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).FindItem(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).AppendItem(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).DeleteItem(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).handleLatePublishRequest(a0) :: gate: gate(old(srv.sessionManager), ch)
func (*server.Server).handleBrowse(srv, ch, requestid, req) (err) [C09]
  noframe
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && !G.okget[srv.sessionManager]
  atcall (*server.serverSecureChannel).Write(c, r, id) :: gate: is(r, *ua.ServiceFault) || gate(old(srv.sessionManager), ch)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: reason: is(r, *ua.ServiceFault) && !gate(old(srv.sessionManager), ch) ==> faultcode(r) == ite(!G.okget[old(srv.sessionManager)], ua.BadSessionIDInvalid, ite(G.sid[G.sess[old(srv.sessionManager)]] == 0, ua.BadSessionNotActivated, ua.BadSecureChannelIDInvalid))
  atcall (*server.serverSecureChannel).Write(c, r, id) :: open: !old(ch.discoveryOnly)
  atcall (*server.SessionManager).Get(m, tok) :: token: tok == old(req.RequestHeader.AuthenticationToken)
  atcall (*server.SessionManager).Delete(m, s) :: expired: gate(old(srv.sessionManager), ch) || G.okget[old(srv.sessionManager)] && G.sid[G.sess[old(srv.sessionManager)]] == 0 && base(s) == G.sess[old(srv.sessionManager)]
  atcall (*server.SubscriptionManager).Get(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.SubscriptionManager).GetBySession(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.SubscriptionManager).Add(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.SubscriptionManager).Delete(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.NamespaceManager).FindNode(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Server).readValue(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Server).writeValue(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).addPublishRequest(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).removePublishRequest(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).addBrowseContinuationPoint(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).removeBrowseContinuationPoint(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall server.NewSubscription(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).Delete(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*github.com/gammazero/workerpool.WorkerPool).Submit(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).SetPublishingMode(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).Modify(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).acknowledge(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).FindItem(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).AppendItem(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).DeleteItem(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).handleLatePublishRequest(a0) :: gate: gate(old(srv.sessionManager), ch)
func (*server.Server).handleBrowseNext(srv, ch, requestid, req) (err) [C09]
  noframe
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && !G.okget[srv.sessionManager]
  atcall (*server.serverSecureChannel).Write(c, r, id) :: gate: is(r, *ua.ServiceFault) || gate(old(srv.sessionManager), ch)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: reason: is(r, *ua.ServiceFault) && !gate(old(srv.sessionManager), ch) ==> faultcode(r) == ite(!G.okget[old(srv.sessionManager)], ua.BadSessionIDInvalid, ite(G.sid[G.sess[old(srv.sessionManager)]] == 0, ua.BadSessionNotActivated, ua.BadSecureChannelIDInvalid))
  atcall (*server.serverSecureChannel).Write(c, r, id) :: open: !old(ch.discoveryOnly)
  atcall (*server.SessionManager).Get(m, tok) :: token: tok == old(req.RequestHeader.AuthenticationToken)
  atcall (*server.SessionManager).Delete(m, s) :: expired: gate(old(srv.sessionManager), ch) || G.okget[old(srv.sessionManager)] && G.sid[G.sess[old(srv.sessionManager)]] == 0 && base(s) == G.sess[old(srv.sessionManager)]
  atcall (*server.SubscriptionManager).Get(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.SubscriptionManager).GetBySession(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.SubscriptionManager).Add(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.SubscriptionManager).Delete(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.NamespaceManager).FindNode(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Server).readValue(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Server).writeValue(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).addPublishRequest(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).removePublishRequest(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).addBrowseContinuationPoint(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).removeBrowseContinuationPoint(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall server.NewSubscription(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).Delete(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*github.com/gammazero/workerpool.WorkerPool).Submit(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).SetPublishingMode(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).Modify(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).acknowledge(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).FindItem(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).AppendItem(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).DeleteItem(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).handleLatePublishRequest(a0) :: gate: gate(old(srv.sessionManager), ch)
func (*server.Server).handleTranslateBrowsePathsToNodeIds(srv, ch, requestid, req) (err) [C09]
  noframe
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && !G.okget[srv.sessionManager]
  atcall (*server.serverSecureChannel).Write(c, r, id) :: gate: is(r, *ua.ServiceFault) || gate(old(srv.sessionManager), ch)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: reason: is(r, *ua.ServiceFault) && !gate(old(srv.sessionManager), ch) ==> faultcode(r) == ite(!G.okget[old(srv.sessionManager)], ua.BadSessionIDInvalid, ite(G.sid[G.sess[old(srv.sessionManager)]] == 0, ua.BadSessionNotActivated, ua.BadSecureChannelIDInvalid))
  atcall (*server.serverSecureChannel).Write(c, r, id) :: open: !old(ch.discoveryOnly)
  atcall (*server.SessionManager).Get(m, tok) :: token: tok == old(req.RequestHeader.AuthenticationToken)
  atcall (*server.SessionManager).Delete(m, s) :: expired: gate(old(srv.sessionManager), ch) || G.okget[old(srv.sessionManager)] && G.sid[G.sess[old(srv.sessionManager)]] == 0 && base(s) == G.sess[old(srv.sessionManager)]
  atcall (*server.SubscriptionManager).Get(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.SubscriptionManager).GetBySession(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.SubscriptionManager).Add(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.SubscriptionManager).Delete(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.NamespaceManager).FindNode(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Server).readValue(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Server).writeValue(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).addPublishRequest(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).removePublishRequest(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).addBrowseContinuationPoint(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).removeBrowseContinuationPoint(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall server.NewSubscription(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).Delete(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*github.com/gammazero/workerpool.WorkerPool).Submit(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).SetPublishingMode(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).Modify(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).acknowledge(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).FindItem(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).AppendItem(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).DeleteItem(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).handleLatePublishRequest(a0) :: gate: gate(old(srv.sessionManager), ch)
func (*server.Server).handleRegisterNodes(srv, ch, requestid, req) (err) [C09]
  noframe
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && !G.okget[srv.sessionManager]
  atcall (*server.serverSecureChannel).Write(c, r, id) :: gate: is(r, *ua.ServiceFault) || gate(old(srv.sessionManager), ch)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: reason: is(r, *ua.ServiceFault) && !gate(old(srv.sessionManager), ch) ==> faultcode(r) == ite(!G.okget[old(srv.sessionManager)], ua.BadSessionIDInvalid, ite(G.sid[G.sess[old(srv.sessionManager)]] == 0, ua.BadSessionNotActivated, ua.BadSecureChannelIDInvalid))
  atcall (*server.serverSecureChannel).Write(c, r, id) :: open: !old(ch.discoveryOnly)
  atcall (*server.SessionManager).Get(m, tok) :: token: tok == old(req.RequestHeader.AuthenticationToken)
  atcall (*server.SessionManager).Delete(m, s) :: expired: gate(old(srv.sessionManager), ch) || G.okget[old(srv.sessionManager)] && G.sid[G.sess[old(srv.sessionManager)]] == 0 && base(s) == G.sess[old(srv.sessionManager)]
  atcall (*server.SubscriptionManager).Get(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.SubscriptionManager).GetBySession(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.SubscriptionManager).Add(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.SubscriptionManager).Delete(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.NamespaceManager).FindNode(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Server).readValue(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Server).writeValue(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).addPublishRequest(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).removePublishRequest(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).addBrowseContinuationPoint(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).removeBrowseContinuationPoint(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall server.NewSubscription(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).Delete(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*github.com/gammazero/workerpool.WorkerPool).Submit(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).SetPublishingMode(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).Modify(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).acknowledge(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).FindItem(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).AppendItem(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).DeleteItem(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).handleLatePublishRequest(a0) :: gate: gate(old(srv.sessionManager), ch)
func (*server.Server).handleUnregisterNodes(srv, ch, requestid, req) (err) [C09]
  noframe
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && !G.okget[srv.sessionManager]
  atcall (*server.serverSecureChannel).Write(c, r, id) :: gate: is(r, *ua.ServiceFault) || gate(old(srv.sessionManager), ch)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: reason: is(r, *ua.ServiceFault) && !gate(old(srv.sessionManager), ch) ==> faultcode(r) == ite(!G.okget[old(srv.sessionManager)], ua.BadSessionIDInvalid, ite(G.sid[G.sess[old(srv.sessionManager)]] == 0, ua.BadSessionNotActivated, ua.BadSecureChannelIDInvalid))
  atcall (*server.serverSecureChannel).Write(c, r, id) :: open: !old(ch.discoveryOnly)
  atcall (*server.SessionManager).Get(m, tok) :: token: tok == old(req.RequestHeader.AuthenticationToken)
  atcall (*server.SessionManager).Delete(m, s) :: expired: gate(old(srv.sessionManager), ch) || G.okget[old(srv.sessionManager)] && G.sid[G.sess[old(srv.sessionManager)]] == 0 && base(s) == G.sess[old(srv.sessionManager)]
  atcall (*server.SubscriptionManager).Get(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.SubscriptionManager).GetBySession(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.SubscriptionManager).Add(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.SubscriptionManager).Delete(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.NamespaceManager).FindNode(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Server).readValue(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Server).writeValue(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).addPublishRequest(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).removePublishRequest(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).addBrowseContinuationPoint(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).removeBrowseContinuationPoint(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall server.NewSubscription(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).Delete(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*github.com/gammazero/workerpool.WorkerPool).Submit(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).SetPublishingMode(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).Modify(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).acknowledge(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).FindItem(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).AppendItem(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).DeleteItem(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).handleLatePublishRequest(a0) :: gate: gate(old(srv.sessionManager), ch)
func (*server.Server).handleRead(srv, ch, requestid, req) (err) [C09]
  noframe
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && !G.okget[srv.sessionManager]
  atcall (*server.serverSecureChannel).Write(c, r, id) :: gate: is(r, *ua.ServiceFault) || gate(old(srv.sessionManager), ch)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: reason: is(r, *ua.ServiceFault) && !gate(old(srv.sessionManager), ch) ==> faultcode(r) == ite(!G.okget[old(srv.sessionManager)], ua.BadSessionIDInvalid, ite(G.sid[G.sess[old(srv.sessionManager)]] == 0, ua.BadSessionNotActivated, ua.BadSecureChannelIDInvalid))
  atcall (*server.serverSecureChannel).Write(c, r, id) :: open: !old(ch.discoveryOnly)
  atcall (*server.SessionManager).Get(m, tok) :: token: tok == old(req.RequestHeader.AuthenticationToken)
  atcall (*server.SessionManager).Delete(m, s) :: expired: gate(old(srv.sessionManager), ch) || G.okget[old(srv.sessionManager)] && G.sid[G.sess[old(srv.sessionManager)]] == 0 && base(s) == G.sess[old(srv.sessionManager)]
  atcall (*server.SubscriptionManager).Get(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.SubscriptionManager).GetBySession(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.SubscriptionManager).Add(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.SubscriptionManager).Delete(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.NamespaceManager).FindNode(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Server).readValue(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Server).writeValue(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).addPublishRequest(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).removePublishRequest(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).addBrowseContinuationPoint(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).removeBrowseContinuationPoint(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall server.NewSubscription(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).Delete(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*github.com/gammazero/workerpool.WorkerPool).Submit(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).SetPublishingMode(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).Modify(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).acknowledge(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).FindItem(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).AppendItem(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).DeleteItem(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).handleLatePublishRequest(a0) :: gate: gate(old(srv.sessionManager), ch)
func (*server.Server).handleWrite(srv, ch, requestid, req) (err) [C09]
  noframe
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && !G.okget[srv.sessionManager]
  atcall (*server.serverSecureChannel).Write(c, r, id) :: gate: is(r, *ua.ServiceFault) || gate(old(srv.sessionManager), ch)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: reason: is(r, *ua.ServiceFault) && !gate(old(srv.sessionManager), ch) ==> faultcode(r) == ite(!G.okget[old(srv.sessionManager)], ua.BadSessionIDInvalid, ite(G.sid[G.sess[old(srv.sessionManager)]] == 0, ua.BadSessionNotActivated, ua.BadSecureChannelIDInvalid))
  atcall (*server.serverSecureChannel).Write(c, r, id) :: open: !old(ch.discoveryOnly)
  atcall (*server.SessionManager).Get(m, tok) :: token: tok == old(req.RequestHeader.AuthenticationToken)
  atcall (*server.SessionManager).Delete(m, s) :: expired: gate(old(srv.sessionManager), ch) || G.okget[old(srv.sessionManager)] && G.sid[G.sess[old(srv.sessionManager)]] == 0 && base(s) == G.sess[old(srv.sessionManager)]
  atcall (*server.SubscriptionManager).Get(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.SubscriptionManager).GetBySession(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.SubscriptionManager).Add(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.SubscriptionManager).Delete(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.NamespaceManager).FindNode(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Server).readValue(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Server).writeValue(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).addPublishRequest(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).removePublishRequest(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).addBrowseContinuationPoint(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).removeBrowseContinuationPoint(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall server.NewSubscription(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).Delete(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*github.com/gammazero/workerpool.WorkerPool).Submit(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).SetPublishingMode(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).Modify(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).acknowledge(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).FindItem(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).AppendItem(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).DeleteItem(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).handleLatePublishRequest(a0) :: gate: gate(old(srv.sessionManager), ch)
func (*server.Server).handleHistoryRead(srv, ch, requestid, req) (err) [C09]
  noframe
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && !G.okget[srv.sessionManager]
  atcall (*server.serverSecureChannel).Write(c, r, id) :: gate: is(r, *ua.ServiceFault) || gate(old(srv.sessionManager), ch)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: reason: is(r, *ua.ServiceFault) && !gate(old(srv.sessionManager), ch) ==> faultcode(r) == ite(!G.okget[old(srv.sessionManager)], ua.BadSessionIDInvalid, ite(G.sid[G.sess[old(srv.sessionManager)]] == 0, ua.BadSessionNotActivated, ua.BadSecureChannelIDInvalid))
  atcall (*server.serverSecureChannel).Write(c, r, id) :: open: !old(ch.discoveryOnly)
  atcall (*server.SessionManager).Get(m, tok) :: token: tok == old(req.RequestHeader.AuthenticationToken)
  atcall (*server.SessionManager).Delete(m, s) :: expired: gate(old(srv.sessionManager), ch) || G.okget[old(srv.sessionManager)] && G.sid[G.sess[old(srv.sessionManager)]] == 0 && base(s) == G.sess[old(srv.sessionManager)]
  atcall (*server.SubscriptionManager).Get(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.SubscriptionManager).GetBySession(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.SubscriptionManager).Add(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.SubscriptionManager).Delete(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.NamespaceManager).FindNode(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Server).readValue(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Server).writeValue(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).addPublishRequest(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).removePublishRequest(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).addBrowseContinuationPoint(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).removeBrowseContinuationPoint(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall server.NewSubscription(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).Delete(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*github.com/gammazero/workerpool.WorkerPool).Submit(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).SetPublishingMode(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).Modify(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).acknowledge(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).FindItem(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).AppendItem(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).DeleteItem(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).handleLatePublishRequest(a0) :: gate: gate(old(srv.sessionManager), ch)
func (*server.Server).handleCall(srv, ch, requestid, req) (err) [C09]
  noframe
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && !G.okget[srv.sessionManager]
  atcall (*server.serverSecureChannel).Write(c, r, id) :: gate: is(r, *ua.ServiceFault) || gate(old(srv.sessionManager), ch)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: reason: is(r, *ua.ServiceFault) && !gate(old(srv.sessionManager), ch) ==> faultcode(r) == ite(!G.okget[old(srv.sessionManager)], ua.BadSessionIDInvalid, ite(G.sid[G.sess[old(srv.sessionManager)]] == 0, ua.BadSessionNotActivated, ua.BadSecureChannelIDInvalid))
  atcall (*server.serverSecureChannel).Write(c, r, id) :: open: !old(ch.discoveryOnly)
  atcall (*server.SessionManager).Get(m, tok) :: token: tok == old(req.RequestHeader.AuthenticationToken)
  atcall (*server.SessionManager).Delete(m, s) :: expired: gate(old(srv.sessionManager), ch) || G.okget[old(srv.sessionManager)] && G.sid[G.sess[old(srv.sessionManager)]] == 0 && base(s) == G.sess[old(srv.sessionManager)]
  atcall (*server.SubscriptionManager).Get(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.SubscriptionManager).GetBySession(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.SubscriptionManager).Add(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.SubscriptionManager).Delete(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.NamespaceManager).FindNode(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Server).readValue(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Server).writeValue(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).addPublishRequest(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).removePublishRequest(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).addBrowseContinuationPoint(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).removeBrowseContinuationPoint(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall server.NewSubscription(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).Delete(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*github.com/gammazero/workerpool.WorkerPool).Submit(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).SetPublishingMode(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).Modify(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).acknowledge(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).FindItem(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).AppendItem(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).DeleteItem(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).handleLatePublishRequest(a0) :: gate: gate(old(srv.sessionManager), ch)
func (*server.Server).handleCreateMonitoredItems(srv, ch, requestid, req) (err) [C09]
  noframe
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && !G.okget[srv.sessionManager]
  atcall (*server.serverSecureChannel).Write(c, r, id) :: gate: is(r, *ua.ServiceFault) || gate(old(srv.sessionManager), ch)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: reason: is(r, *ua.ServiceFault) && !gate(old(srv.sessionManager), ch) ==> faultcode(r) == ite(!G.okget[old(srv.sessionManager)], ua.BadSessionIDInvalid, ite(G.sid[G.sess[old(srv.sessionManager)]] == 0, ua.BadSessionNotActivated, ua.BadSecureChannelIDInvalid))
  atcall (*server.serverSecureChannel).Write(c, r, id) :: open: !old(ch.discoveryOnly)
  atcall (*server.SessionManager).Get(m, tok) :: token: tok == old(req.RequestHeader.AuthenticationToken)
  atcall (*server.SessionManager).Delete(m, s) :: expired: gate(old(srv.sessionManager), ch) || G.okget[old(srv.sessionManager)] && G.sid[G.sess[old(srv.sessionManager)]] == 0 && base(s) == G.sess[old(srv.sessionManager)]
  atcall (*server.SubscriptionManager).Get(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.SubscriptionManager).GetBySession(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.SubscriptionManager).Add(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.SubscriptionManager).Delete(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.NamespaceManager).FindNode(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Server).readValue(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Server).writeValue(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).addPublishRequest(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).removePublishRequest(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).addBrowseContinuationPoint(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).removeBrowseContinuationPoint(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall server.NewSubscription(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).Delete(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*github.com/gammazero/workerpool.WorkerPool).Submit(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).SetPublishingMode(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).Modify(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).acknowledge(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).FindItem(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).AppendItem(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).DeleteItem(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).handleLatePublishRequest(a0) :: gate: gate(old(srv.sessionManager), ch)
func (*server.Server).handleModifyMonitoredItems(srv, ch, requestid, req) (err) [C09]
  noframe
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && !G.okget[srv.sessionManager]
  atcall (*server.serverSecureChannel).Write(c, r, id) :: gate: is(r, *ua.ServiceFault) || gate(old(srv.sessionManager), ch)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: reason: is(r, *ua.ServiceFault) && !gate(old(srv.sessionManager), ch) ==> faultcode(r) == ite(!G.okget[old(srv.sessionManager)], ua.BadSessionIDInvalid, ite(G.sid[G.sess[old(srv.sessionManager)]] == 0, ua.BadSessionNotActivated, ua.BadSecureChannelIDInvalid))
  atcall (*server.serverSecureChannel).Write(c, r, id) :: open: !old(ch.discoveryOnly)
  atcall (*server.SessionManager).Get(m, tok) :: token: tok == old(req.RequestHeader.AuthenticationToken)
  atcall (*server.SessionManager).Delete(m, s) :: expired: gate(old(srv.sessionManager), ch) || G.okget[old(srv.sessionManager)] && G.sid[G.sess[old(srv.sessionManager)]] == 0 && base(s) == G.sess[old(srv.sessionManager)]
  atcall (*server.SubscriptionManager).Get(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.SubscriptionManager).GetBySession(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.SubscriptionManager).Add(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.SubscriptionManager).Delete(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.NamespaceManager).FindNode(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Server).readValue(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Server).writeValue(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).addPublishRequest(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).removePublishRequest(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).addBrowseContinuationPoint(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).removeBrowseContinuationPoint(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall server.NewSubscription(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).Delete(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*github.com/gammazero/workerpool.WorkerPool).Submit(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).SetPublishingMode(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).Modify(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).acknowledge(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).FindItem(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).AppendItem(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).DeleteItem(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).handleLatePublishRequest(a0) :: gate: gate(old(srv.sessionManager), ch)
func (*server.Server).handleSetMonitoringMode(srv, ch, requestid, req) (err) [C09]
  noframe
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && !G.okget[srv.sessionManager]
  atcall (*server.serverSecureChannel).Write(c, r, id) :: gate: is(r, *ua.ServiceFault) || gate(old(srv.sessionManager), ch)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: reason: is(r, *ua.ServiceFault) && !gate(old(srv.sessionManager), ch) ==> faultcode(r) == ite(!G.okget[old(srv.sessionManager)], ua.BadSessionIDInvalid, ite(G.sid[G.sess[old(srv.sessionManager)]] == 0, ua.BadSessionNotActivated, ua.BadSecureChannelIDInvalid))
  atcall (*server.serverSecureChannel).Write(c, r, id) :: open: !old(ch.discoveryOnly)
  atcall (*server.SessionManager).Get(m, tok) :: token: tok == old(req.RequestHeader.AuthenticationToken)
  atcall (*server.SessionManager).Delete(m, s) :: expired: gate(old(srv.sessionManager), ch) || G.okget[old(srv.sessionManager)] && G.sid[G.sess[old(srv.sessionManager)]] == 0 && base(s) == G.sess[old(srv.sessionManager)]
  atcall (*server.SubscriptionManager).Get(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.SubscriptionManager).GetBySession(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.SubscriptionManager).Add(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.SubscriptionManager).Delete(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.NamespaceManager).FindNode(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Server).readValue(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Server).writeValue(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).addPublishRequest(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).removePublishRequest(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).addBrowseContinuationPoint(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).removeBrowseContinuationPoint(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall server.NewSubscription(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).Delete(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*github.com/gammazero/workerpool.WorkerPool).Submit(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).SetPublishingMode(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).Modify(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).acknowledge(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).FindItem(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).AppendItem(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).DeleteItem(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).handleLatePublishRequest(a0) :: gate: gate(old(srv.sessionManager), ch)
func (*server.Server).handleSetTriggering(srv, ch, requestid, req) (err) [C09]
  noframe
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && !G.okget[srv.sessionManager]
  atcall (*server.serverSecureChannel).Write(c, r, id) :: gate: is(r, *ua.ServiceFault) || gate(old(srv.sessionManager), ch)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: reason: is(r, *ua.ServiceFault) && !gate(old(srv.sessionManager), ch) ==> faultcode(r) == ite(!G.okget[old(srv.sessionManager)], ua.BadSessionIDInvalid, ite(G.sid[G.sess[old(srv.sessionManager)]] == 0, ua.BadSessionNotActivated, ua.BadSecureChannelIDInvalid))
  atcall (*server.serverSecureChannel).Write(c, r, id) :: open: !old(ch.discoveryOnly)
  atcall (*server.SessionManager).Get(m, tok) :: token: tok == old(req.RequestHeader.AuthenticationToken)
  atcall (*server.SessionManager).Delete(m, s) :: expired: gate(old(srv.sessionManager), ch) || G.okget[old(srv.sessionManager)] && G.sid[G.sess[old(srv.sessionManager)]] == 0 && base(s) == G.sess[old(srv.sessionManager)]
  atcall (*server.SubscriptionManager).Get(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.SubscriptionManager).GetBySession(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.SubscriptionManager).Add(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.SubscriptionManager).Delete(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.NamespaceManager).FindNode(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Server).readValue(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Server).writeValue(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).addPublishRequest(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).removePublishRequest(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).addBrowseContinuationPoint(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).removeBrowseContinuationPoint(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall server.NewSubscription(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).Delete(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*github.com/gammazero/workerpool.WorkerPool).Submit(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).SetPublishingMode(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).Modify(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).acknowledge(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).FindItem(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).AppendItem(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).DeleteItem(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).handleLatePublishRequest(a0) :: gate: gate(old(srv.sessionManager), ch)
func (*server.Server).handleDeleteMonitoredItems(srv, ch, requestid, req) (err) [C09]
  noframe
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && !G.okget[srv.sessionManager]
  atcall (*server.serverSecureChannel).Write(c, r, id) :: gate: is(r, *ua.ServiceFault) || gate(old(srv.sessionManager), ch)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: reason: is(r, *ua.ServiceFault) && !gate(old(srv.sessionManager), ch) ==> faultcode(r) == ite(!G.okget[old(srv.sessionManager)], ua.BadSessionIDInvalid, ite(G.sid[G.sess[old(srv.sessionManager)]] == 0, ua.BadSessionNotActivated, ua.BadSecureChannelIDInvalid))
  atcall (*server.serverSecureChannel).Write(c, r, id) :: open: !old(ch.discoveryOnly)
  atcall (*server.SessionManager).Get(m, tok) :: token: tok == old(req.RequestHeader.AuthenticationToken)
  atcall (*server.SessionManager).Delete(m, s) :: expired: gate(old(srv.sessionManager), ch) || G.okget[old(srv.sessionManager)] && G.sid[G.sess[old(srv.sessionManager)]] == 0 && base(s) == G.sess[old(srv.sessionManager)]
  atcall (*server.SubscriptionManager).Get(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.SubscriptionManager).GetBySession(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.SubscriptionManager).Add(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.SubscriptionManager).Delete(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.NamespaceManager).FindNode(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Server).readValue(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Server).writeValue(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).addPublishRequest(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).removePublishRequest(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).addBrowseContinuationPoint(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).removeBrowseContinuationPoint(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall server.NewSubscription(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).Delete(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*github.com/gammazero/workerpool.WorkerPool).Submit(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).SetPublishingMode(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).Modify(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).acknowledge(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).FindItem(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).AppendItem(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).DeleteItem(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).handleLatePublishRequest(a0) :: gate: gate(old(srv.sessionManager), ch)
func (*server.Server).handleCreateSubscription(srv, ch, requestid, req) (err) [C09]
  noframe
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && !G.okget[srv.sessionManager]
  atcall (*server.serverSecureChannel).Write(c, r, id) :: gate: is(r, *ua.ServiceFault) || gate(old(srv.sessionManager), ch)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: reason: is(r, *ua.ServiceFault) && !gate(old(srv.sessionManager), ch) ==> faultcode(r) == ite(!G.okget[old(srv.sessionManager)], ua.BadSessionIDInvalid, ite(G.sid[G.sess[old(srv.sessionManager)]] == 0, ua.BadSessionNotActivated, ua.BadSecureChannelIDInvalid))
  atcall (*server.serverSecureChannel).Write(c, r, id) :: open: !old(ch.discoveryOnly)
  atcall (*server.SessionManager).Get(m, tok) :: token: tok == old(req.RequestHeader.AuthenticationToken)
  atcall (*server.SessionManager).Delete(m, s) :: expired: gate(old(srv.sessionManager), ch) || G.okget[old(srv.sessionManager)] && G.sid[G.sess[old(srv.sessionManager)]] == 0 && base(s) == G.sess[old(srv.sessionManager)]
  atcall (*server.SubscriptionManager).Get(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.SubscriptionManager).GetBySession(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.SubscriptionManager).Add(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.SubscriptionManager).Delete(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.NamespaceManager).FindNode(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Server).readValue(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Server).writeValue(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).addPublishRequest(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).removePublishRequest(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).addBrowseContinuationPoint(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).removeBrowseContinuationPoint(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall server.NewSubscription(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).Delete(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*github.com/gammazero/workerpool.WorkerPool).Submit(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).SetPublishingMode(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).Modify(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).acknowledge(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).FindItem(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).AppendItem(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).DeleteItem(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).handleLatePublishRequest(a0) :: gate: gate(old(srv.sessionManager), ch)
func (*server.Server).handleModifySubscription(srv, ch, requestid, req) (err) [C09]
  noframe
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && !G.okget[srv.sessionManager]
  atcall (*server.serverSecureChannel).Write(c, r, id) :: gate: is(r, *ua.ServiceFault) || gate(old(srv.sessionManager), ch)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: reason: is(r, *ua.ServiceFault) && !gate(old(srv.sessionManager), ch) ==> faultcode(r) == ite(!G.okget[old(srv.sessionManager)], ua.BadSessionIDInvalid, ite(G.sid[G.sess[old(srv.sessionManager)]] == 0, ua.BadSessionNotActivated, ua.BadSecureChannelIDInvalid))
  atcall (*server.serverSecureChannel).Write(c, r, id) :: open: !old(ch.discoveryOnly)
  atcall (*server.SessionManager).Get(m, tok) :: token: tok == old(req.RequestHeader.AuthenticationToken)
  atcall (*server.SessionManager).Delete(m, s) :: expired: gate(old(srv.sessionManager), ch) || G.okget[old(srv.sessionManager)] && G.sid[G.sess[old(srv.sessionManager)]] == 0 && base(s) == G.sess[old(srv.sessionManager)]
  atcall (*server.SubscriptionManager).Get(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.SubscriptionManager).GetBySession(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.SubscriptionManager).Add(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.SubscriptionManager).Delete(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.NamespaceManager).FindNode(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Server).readValue(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Server).writeValue(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).addPublishRequest(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).removePublishRequest(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).addBrowseContinuationPoint(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).removeBrowseContinuationPoint(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall server.NewSubscription(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).Delete(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*github.com/gammazero/workerpool.WorkerPool).Submit(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).SetPublishingMode(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).Modify(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).acknowledge(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).FindItem(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).AppendItem(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).DeleteItem(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).handleLatePublishRequest(a0) :: gate: gate(old(srv.sessionManager), ch)
func (*server.Server).handleSetPublishingMode(srv, ch, requestid, req) (err) [C09]
  noframe
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && !G.okget[srv.sessionManager]
  atcall (*server.serverSecureChannel).Write(c, r, id) :: gate: is(r, *ua.ServiceFault) || gate(old(srv.sessionManager), ch)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: reason: is(r, *ua.ServiceFault) && !gate(old(srv.sessionManager), ch) ==> faultcode(r) == ite(!G.okget[old(srv.sessionManager)], ua.BadSessionIDInvalid, ite(G.sid[G.sess[old(srv.sessionManager)]] == 0, ua.BadSessionNotActivated, ua.BadSecureChannelIDInvalid))
  atcall (*server.serverSecureChannel).Write(c, r, id) :: open: !old(ch.discoveryOnly)
  atcall (*server.SessionManager).Get(m, tok) :: token: tok == old(req.RequestHeader.AuthenticationToken)
  atcall (*server.SessionManager).Delete(m, s) :: expired: gate(old(srv.sessionManager), ch) || G.okget[old(srv.sessionManager)] && G.sid[G.sess[old(srv.sessionManager)]] == 0 && base(s) == G.sess[old(srv.sessionManager)]
  atcall (*server.SubscriptionManager).Get(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.SubscriptionManager).GetBySession(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.SubscriptionManager).Add(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.SubscriptionManager).Delete(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.NamespaceManager).FindNode(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Server).readValue(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Server).writeValue(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).addPublishRequest(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).removePublishRequest(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).addBrowseContinuationPoint(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).removeBrowseContinuationPoint(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall server.NewSubscription(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).Delete(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*github.com/gammazero/workerpool.WorkerPool).Submit(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).SetPublishingMode(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).Modify(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).acknowledge(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).FindItem(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).AppendItem(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).DeleteItem(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).handleLatePublishRequest(a0) :: gate: gate(old(srv.sessionManager), ch)
func (*server.Server).handleDeleteSubscriptions(srv, ch, requestid, req) (err) [C09]
  noframe
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && !G.okget[srv.sessionManager]
  atcall (*server.serverSecureChannel).Write(c, r, id) :: gate: is(r, *ua.ServiceFault) || gate(old(srv.sessionManager), ch)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: reason: is(r, *ua.ServiceFault) && !gate(old(srv.sessionManager), ch) ==> faultcode(r) == ite(!G.okget[old(srv.sessionManager)], ua.BadSessionIDInvalid, ite(G.sid[G.sess[old(srv.sessionManager)]] == 0, ua.BadSessionNotActivated, ua.BadSecureChannelIDInvalid))
  atcall (*server.serverSecureChannel).Write(c, r, id) :: open: !old(ch.discoveryOnly)
  atcall (*server.SessionManager).Get(m, tok) :: token: tok == old(req.RequestHeader.AuthenticationToken)
  atcall (*server.SessionManager).Delete(m, s) :: expired: gate(old(srv.sessionManager), ch) || G.okget[old(srv.sessionManager)] && G.sid[G.sess[old(srv.sessionManager)]] == 0 && base(s) == G.sess[old(srv.sessionManager)]
  atcall (*server.SubscriptionManager).Get(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.SubscriptionManager).GetBySession(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.SubscriptionManager).Add(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.SubscriptionManager).Delete(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.NamespaceManager).FindNode(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Server).readValue(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Server).writeValue(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).addPublishRequest(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).removePublishRequest(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).addBrowseContinuationPoint(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).removeBrowseContinuationPoint(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall server.NewSubscription(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).Delete(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*github.com/gammazero/workerpool.WorkerPool).Submit(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).SetPublishingMode(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).Modify(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).acknowledge(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).FindItem(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).AppendItem(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).DeleteItem(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).handleLatePublishRequest(a0) :: gate: gate(old(srv.sessionManager), ch)
func (*server.Server).handlePublish(srv, ch, requestid, req) (err) [C09]
  noframe
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && !G.okget[srv.sessionManager]
  atcall (*server.serverSecureChannel).Write(c, r, id) :: gate: is(r, *ua.ServiceFault) || gate(old(srv.sessionManager), ch)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: reason: is(r, *ua.ServiceFault) && !gate(old(srv.sessionManager), ch) ==> faultcode(r) == ite(!G.okget[old(srv.sessionManager)], ua.BadSessionIDInvalid, ite(G.sid[G.sess[old(srv.sessionManager)]] == 0, ua.BadSessionNotActivated, ua.BadSecureChannelIDInvalid))
  atcall (*server.serverSecureChannel).Write(c, r, id) :: open: !old(ch.discoveryOnly)
  atcall (*server.SessionManager).Get(m, tok) :: token: tok == old(req.RequestHeader.AuthenticationToken)
  atcall (*server.SessionManager).Delete(m, s) :: expired: gate(old(srv.sessionManager), ch) || G.okget[old(srv.sessionManager)] && G.sid[G.sess[old(srv.sessionManager)]] == 0 && base(s) == G.sess[old(srv.sessionManager)]
  atcall (*server.SubscriptionManager).Get(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.SubscriptionManager).GetBySession(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.SubscriptionManager).Add(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.SubscriptionManager).Delete(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.NamespaceManager).FindNode(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Server).readValue(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Server).writeValue(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).addPublishRequest(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).removePublishRequest(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).addBrowseContinuationPoint(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).removeBrowseContinuationPoint(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall server.NewSubscription(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).Delete(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*github.com/gammazero/workerpool.WorkerPool).Submit(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).SetPublishingMode(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).Modify(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).acknowledge(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).FindItem(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).AppendItem(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).DeleteItem(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).handleLatePublishRequest(a0) :: gate: gate(old(srv.sessionManager), ch)
func (*server.Server).handleRepublish(srv, ch, requestid, req) (err) [C09]
  noframe
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && !G.okget[srv.sessionManager]
  atcall (*server.serverSecureChannel).Write(c, r, id) :: gate: is(r, *ua.ServiceFault) || gate(old(srv.sessionManager), ch)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: reason: is(r, *ua.ServiceFault) && !gate(old(srv.sessionManager), ch) ==> faultcode(r) == ite(!G.okget[old(srv.sessionManager)], ua.BadSessionIDInvalid, ite(G.sid[G.sess[old(srv.sessionManager)]] == 0, ua.BadSessionNotActivated, ua.BadSecureChannelIDInvalid))
  atcall (*server.serverSecureChannel).Write(c, r, id) :: open: !old(ch.discoveryOnly)
  atcall (*server.SessionManager).Get(m, tok) :: token: tok == old(req.RequestHeader.AuthenticationToken)
  atcall (*server.SessionManager).Delete(m, s) :: expired: gate(old(srv.sessionManager), ch) || G.okget[old(srv.sessionManager)] && G.sid[G.sess[old(srv.sessionManager)]] == 0 && base(s) == G.sess[old(srv.sessionManager)]
  atcall (*server.SubscriptionManager).Get(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.SubscriptionManager).GetBySession(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.SubscriptionManager).Add(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.SubscriptionManager).Delete(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.NamespaceManager).FindNode(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Server).readValue(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Server).writeValue(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).addPublishRequest(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).removePublishRequest(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).addBrowseContinuationPoint(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Session).removeBrowseContinuationPoint(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall server.NewSubscription(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).Delete(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*github.com/gammazero/workerpool.WorkerPool).Submit(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).SetPublishingMode(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).Modify(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).acknowledge(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).FindItem(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).AppendItem(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).DeleteItem(a0) :: gate: gate(old(srv.sessionManager), ch)
  atcall (*server.Subscription).handleLatePublishRequest(a0) :: gate: gate(old(srv.sessionManager), ch)
