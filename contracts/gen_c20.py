#!/usr/bin/env python3
"""Generates C20.spec: subscriptions are reachable only through the session that created them."""
import os
H="""CloseSession CreateMonitoredItems ModifyMonitoredItems SetMonitoringMode SetTriggering DeleteMonitoredItems
CreateSubscription ModifySubscription SetPublishingMode Publish Republish DeleteSubscriptions Cancel Browse BrowseNext
TranslateBrowsePathsToNodeIds RegisterNodes UnregisterNodes Read Write HistoryRead Call""".split()
SUB="Delete Modify Items FindItem AppendItem DeleteItem acknowledge handleLatePublishRequest SetPublishingMode startPublishing stopPublishing resendData IsExpired publish".split()
head="""# Generated by gen_c20.py. Ownership of subscriptions in every service handler.
package server
ghost sess int
ghost sub int
ghost subok bool
ghost got int
ghost cnt int
ghost foreign bool row
frozen server.Subscription.sessionId server.Session.sessionId server.Subscription.id server.Server.sessionManager
define S() = typed(*server.Session, G.sess[0])
define mine(s) = s.sessionId == S().sessionId
func (*server.SessionManager).Get(m, tok) (s, ok)
  trusted
  modifies G.sess[0]
  ensures ok ==> s != nil && G.sess[0] == base(s) && s == typed(*server.Session, G.sess[0])
  ensures !ok ==> s == nil
func (*server.SubscriptionManager).Get(m, id) (s, ok)
  trusted
  modifies G.sub[0], G.subok[0], G.got[0], G.cnt[0], G.foreign[0]
  ensures G.subok[0] == ok && G.got[0] == id && G.cnt[0] == old(G.cnt[0]) + 1
  ensures G.foreign[0] == rowupd(old(G.foreign[0]), old(G.cnt[0]), !(ok && mine(s)))
  ensures ok ==> s != nil && G.sub[0] == base(s) && s == typed(*server.Subscription, G.sub[0])
  ensures !ok ==> s == nil
func (*server.SubscriptionManager).GetBySession(m, s) (r)
  trusted
  ensures forall(i, off(r), off(r) + len(r), r[i - off(r)] != nil && r[i - off(r)].sessionId == s.sessionId)
func server.NewSubscription(m, session, pi, lc, kc, mn, en, prio) (r)
  trusted
  ensures r != nil && r.sessionId == session.sessionId
func (*server.serverSecureChannel).Write(ch, r, id) (err)
  trusted
func (*server.serverSecureChannel).Abort(ch, reason, message) (err)
  trusted
func (*server.Session).SecureChannelId(s) (r)
  trusted
func (*server.SessionManager).Delete(m, s)
  trusted
pure opaquetasks
# the obligations read frozen fields and the results of Get and GetBySession only, none of which these calls can change
pure (*server.SubscriptionManager).Add (*server.SubscriptionManager).Delete (*server.SubscriptionManager).Len
noinline server.selectTimestamps (*server.Server).readValue (*server.Server).writeValue (*server.Server).validateIndexRange (*server.Server).follow (*server.Server).target server.NewDataChangeMonitoredItem server.NewEventMonitoredItem
noinline (*server.NamespaceManager).FindNode (*server.NamespaceManager).IsSubtype (*server.NamespaceManager).FindComponent (*server.SubscriptionManager).Add (*server.SubscriptionManager).Delete (*server.SubscriptionManager).Len
noinline (*server.Session).addBrowseContinuationPoint (*server.Session).removeBrowseContinuationPoint (*server.Session).addPublishRequest (*server.Session).removePublishRequest
noinline server.IsUserPermitted (*server.NamespaceManager).FindVariantType (*server.NamespaceManager).FindSuperType (*server.VariableNode).UserRolePermissions (*server.ObjectNode).UserRolePermissions (*server.VariableNode).UserAccessLevel (*server.MethodNode).UserExecutable (*server.MethodNode).UserRolePermissions ua.ToNodeID
noinline (*server.MethodNode).callMethodHandler (*server.Server).Endpoints (*server.Server).buildEndpointDescriptions server.NewSession (*server.SessionManager).Add (*server.Session).SetUserIdentity (*server.Session).SetSecureChannelId (*server.Session).SetUserRoles (*server.serverSecureChannel).LocalEndpoint server.getNextNonce (*server.Server).NamespaceUris (*server.Server).ServerCapabilities
"""
out=[head]
for m in SUB: out.append(f"noinline (*server.Subscription).{m}\npure (*server.Subscription).{m}")
one={"CreateMonitoredItems","ModifyMonitoredItems","SetMonitoringMode","SetTriggering","DeleteMonitoredItems","ModifySubscription","Republish"}
for h in H:
    o=[f"func (*server.Server).handle{h}(srv, ch, requestid, req) (err) [C20]","  noframe",
       "  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && G.sess[0] == 0 && !G.subok[0] && G.cnt[0] == 0"]
    for m in SUB:
        o.append(f"  atcall (*server.Subscription).{m}(s) :: own: G.sess[0] != 0 && mine(s)")
    o.append("  atcall write server.Subscription(s) :: own: G.sess[0] != 0 && mine(s)")
    o.append("  atcall (*server.SubscriptionManager).Delete(m, s) :: own: G.sess[0] != 0 && mine(s)")
    o.append("  atcall (*server.SubscriptionManager).GetBySession(m, s) :: own: base(s) == G.sess[0]")
    o.append("  atcall server.NewSubscription(m, s) :: own: base(s) == G.sess[0]")
    if h in one:
        sub="typed(*server.Subscription, G.sub[0])"
        o.append(f"  atcall (*server.SubscriptionManager).Get(m, id) :: id: id == old(req.SubscriptionID)")
        o.append(f"  atcall (*server.serverSecureChannel).Write(c, r, id) :: refuse: is(r, *ua.ServiceFault) || G.subok[0] && mine({sub})")
        o.append(f"  atcall (*server.serverSecureChannel).Write(c, r, id) :: reason: G.cnt[0] > 0 && !(G.subok[0] && mine({sub})) ==> as(r, *ua.ServiceFault).ResponseHeader.ServiceResult == ua.BadSubscriptionIDInvalid")
    per={"SetPublishingMode":"SubscriptionIDs[%s]","DeleteSubscriptions":"SubscriptionIDs[%s]","Publish":"SubscriptionAcknowledgements[%s].SubscriptionID"}
    if h in per:
        ops="req."+per[h].split("[")[0]
        o.append(f"  atcall (*server.SubscriptionManager).Get(m, id) :: id: G.cnt[0] < len({ops}) && id == req.{per[h]%'G.cnt[0]'}")
        o.append(f"  invariant G.cnt[0] == $k && $k <= len({ops})")
        o.append(f"  invariant len($s) == len({ops}) && forall(j, off($s), off($s) + $k, G.foreign[0][j - off($s)] ==> $s[j - off($s)] == ua.BadSubscriptionIDInvalid)")
        o.append(f"  invariant len($s) == $k && forall(j, off($s), off($s) + $k, G.foreign[0][j - off($s)] ==> $s[j - off($s)] == ua.BadSubscriptionIDInvalid)")
        bad=lambda e: f"len({e}) == len({ops}) && G.cnt[0] == len({e}) && forall(j, off({e}), off({e}) + len({e}), G.foreign[0][j - off({e})] ==> {e}[j - off({e})] == ua.BadSubscriptionIDInvalid)"
        if h=="Publish":
            o.append(f"  atcall (*server.Session).addPublishRequest(s, c, id, rq, res) :: results: {bad('res')}")
            o.append(f"  atcall (*server.Subscription).handleLatePublishRequest(s, c, id, rq, res) :: results: {bad('res')}")
        else:
            e=f"as(r, *ua.{h}Response).Results"
            o.append(f"  atcall (*server.serverSecureChannel).Write(c, r, id) :: results: is(r, *ua.{h}Response) ==> {bad(e)}")
    out.append("\n".join(o))
out.append("""callerof (*server.Subscription).Items(session) [C20]
  noframe
  atcall (*server.Subscription).Items(s) :: own: session != nil && s.session == session
callerof (*server.Subscription).resendData(session) [C20]
  noframe
  atcall (*server.Subscription).resendData(s) :: own: session != nil && s.session == session""")
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"C20.spec"),"w").write("\n".join(out)+"\n")
