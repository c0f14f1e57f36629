# Bodies behind C20.spec: the subscription table, construction of a subscription, and what each subscription method touches.
package server
frozen server.Subscription.sessionId server.Session.sessionId server.Subscription.id
owner server.Subscription.session (*server.Subscription).deleteImpl
owner server.Subscription.items (*server.Subscription).deleteImpl
owner server.SubscriptionManager.subscriptionsByID server.NewSubscriptionManager
# every subscription object: established by NewSubscription (below), kept because session and sessionId are never reassigned, only dropped
define linked(s) = s.session == nil || s.session.sessionId == s.sessionId
monitor server.SubscriptionManager.RWMutex self [C20]
guards mapof(self.subscriptionsByID)
inv nonnil: forall(k, uint32, has(self.subscriptionsByID, k) ==> self.subscriptionsByID[k] != nil)
inv linked: forall(k, uint32, has(self.subscriptionsByID, k) ==> linked(self.subscriptionsByID[k]))
func (*server.SubscriptionManager).Get(m, id) (s, ok) [C20]
  noframe
  requires m != nil
  ensures found: ok ==> s != nil && has(m.subscriptionsByID, id) && m.subscriptionsByID[id] == s
  ensures none: !ok ==> s == nil
  ensures complete: has(m.subscriptionsByID, id) ==> ok
func (*server.SubscriptionManager).GetBySession(m, session) (r) [C20]
  noframe
  requires m != nil && session != nil
  invariant forall(j, off($s), off($s) + len($s), $s[j - off($s)] != nil && $s[j - off($s)].session == session)
  invariant forall(j, off($s), off($s) + len($s), linked($s[j - off($s)]))
  ensures own: forall(j, off(r), off(r) + len(r), r[j - off(r)] != nil && r[j - off(r)].session == session)
  ensures id: forall(j, off(r), off(r) + len(r), r[j - off(r)].sessionId == session.sessionId)
func (*server.SubscriptionManager).Add(m, s) (err) [C20]
  noframe
  requires m != nil && s != nil && m.server != nil && linked(s) && m.subscriptionsByID != nil
  ensures added: err == nil ==> has(m.subscriptionsByID, s.id) && m.subscriptionsByID[s.id] == s
func (*server.SubscriptionManager).Delete(m, s) [C20]
  noframe
  requires m != nil && s != nil && m.server != nil
  ensures gone: !has(m.subscriptionsByID, s.id)
# frames of the parameter setters (their values belong to the subscription parameter property)
func (*server.Subscription).setPublishingInterval(s, v)
  trusted
  modifies s.publishingInterval
func (*server.Subscription).setMaxKeepAliveCount(s, v)
  trusted
  modifies s.maxKeepAliveCount
func (*server.Subscription).setLifetimeCount(s, v)
  trusted
  modifies s.maxLifetimeCount
func (*server.Subscription).setMaxNotificationsPerPublish(s, v)
  trusted
  modifies s.maxNotificationsPerPublish
pure (*server.SubscriptionManager).addDiagnosticsNode (*server.SubscriptionManager).removeDiagnosticsNode
noinline (*server.SubscriptionManager).addDiagnosticsNode (*server.SubscriptionManager).removeDiagnosticsNode
func server.NewSubscription(m, session, pi, lc, kc, mn, en, prio) (r) [C20]
  noframe
  requires session != nil && m != nil
  ensures owner: r != nil && r.session == session && r.sessionId == session.sessionId && linked(r)
  ensures fresh: fresh(r)
func (*server.Subscription).SetPublishingMode(s, v) [C20]
  modifies s.publishingEnabled, s.lifetimeCount
  ensures set: s.publishingEnabled == v
func (*server.Subscription).FindItem(s, id) (r, ok) [C20]
  noframe
  ensures own: ok == has(s.items, id)
  ensures item: ok ==> r == s.items[id]
# what a subscription sends goes out in answer to a publish request of its own session, and comes from its own items
func (*server.Subscription).publish(s, tn) (err) [C20]
  noframe
  invtimeout 50
  atcall (*server.Session).removePublishRequest(q) :: own: base(q) != 0 && base(q) == base(old(s.session))
func (*server.Session).removePublishRequest(s) (c, id, rq, res, ok, err)
  trusted
  ensures ok ==> c != nil && rq != nil
func (*server.serverSecureChannel).Write(ch, r, id) (err)
  trusted
func invoke server.MonitoredItem.notificationsAvailable(i, tn, late, resend) (r)
  trusted
func invoke server.MonitoredItem.MonitoringMode(i) (r)
  trusted
func invoke server.MonitoredItem.Triggered(i) (r)
  trusted
func invoke server.MonitoredItem.ClientHandle(i) (r)
  trusted
func (*server.EventMonitoredItem).notifications(i, max) (r, more)
  trusted
func (*server.DataChangeMonitoredItem).notifications(i, max) (r, more)
  trusted
pure container/list.*
pure (*container/list.List).Front (*container/list.List).Len (*container/list.List).Remove (*container/list.List).PushBack (*container/list.Element).Next
noinline (*container/list.List).Front (*container/list.List).Len (*container/list.List).Remove (*container/list.List).PushBack (*container/list.Element).Next
noinline (*server.Subscription).deleteImpl
pure (*server.SubscriptionManager).Delete
