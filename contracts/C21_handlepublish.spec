# Publish requests: answered at once, or queued once; a queued request that is taken from the queue is answered exactly
# once, on its own channel, with its own id, handle and acknowledgement results.
package server
ghost nresp int
ghost naborted int
ghost nqueued int
ghost pend int
ghost curch int
ghost curid int
ghost curhandle int
ghost curresults int
ghost curlen int
define okop(op) = op != nil && op.ch != nil && op.req != nil
define mine(c, id) = ufb(dequeued, base(c), id)
func (*server.serverSecureChannel).Write(ch, r, id) (err)
  trusted
  modifies G.nresp[ch], G.pend[0]
  ensures G.nresp[ch] == old(G.nresp[ch]) + ite(mine(ch, id), 0, 1)
  ensures G.pend[0] == old(G.pend[0]) - ite(mine(ch, id), 1, 0)
func (*server.serverSecureChannel).Abort(ch, reason, message) (err)
  trusted
  modifies G.naborted[ch]
  ensures G.naborted[ch] == old(G.naborted[ch]) + 1
func recv server.Session.publishRequests(s) (op)
  trusted
  modifies G.pend[0], G.curch[0], G.curid[0], G.curhandle[0], G.curresults[0], G.curlen[0]
  ensures okop(op) && mine(op.ch, op.requestId)
  ensures G.pend[0] == old(G.pend[0]) + 1
  ensures G.curch[0] == base(op.ch) && G.curid[0] == op.requestId && G.curhandle[0] == op.req.RequestHeader.RequestHandle && G.curresults[0] == base(op.results) && G.curlen[0] == len(op.results)
func send server.Session.publishRequests(s, op)
  trusted
  requires okop(op)
  modifies G.nqueued[0]
  ensures G.nqueued[0] == old(G.nqueued[0]) + 1
func (*server.SessionManager).Get(m, tok) (s, ok)
  trusted
  ensures ok ==> s != nil
  ensures !ok ==> s == nil
func (*server.Session).SecureChannelId(s) (r)
  trusted
func (*server.SessionManager).Delete(m, s)
  trusted
  modifies everything
noinline (*server.SubscriptionManager).Get (*server.SubscriptionManager).GetBySession (*server.SubscriptionManager).Len (*server.SubscriptionManager).Delete (*server.Subscription).acknowledge (*server.Subscription).deleteImpl
# monitored item methods change only monitored items; the retransmission queue is not looked at here (C15)
func invoke server.MonitoredItem.notificationsAvailable(i, tn, late, resend) (r)
  trusted
func invoke server.MonitoredItem.MonitoringMode(i) (r)
  trusted
func invoke server.MonitoredItem.Triggered(i) (r)
  trusted
func invoke server.MonitoredItem.ClientHandle(i) (r)
  trusted
func (*server.EventMonitoredItem).notifications(i, max) (r, more)
  trusted
func (*server.DataChangeMonitoredItem).notifications(i, max) (r, more)
  trusted
func (*container/list.List).Front(l) (e)
  trusted
func (*container/list.List).Len(l) (n)
  trusted
  ensures n >= 0
func (*container/list.List).Remove(l, e) (v)
  trusted
func (*container/list.List).PushBack(l, v) (e)
  trusted
  ensures e != nil
func (*container/list.Element).Next(l) (e)
  trusted

func (*server.Subscription).handleLatePublishRequest(s, ch, requestid, req, results) (ok, err)
  trusted
  requires ch != nil && req != nil && G.nresp[ch] == 0 && !mine(ch, requestid)
  modifies G.nresp[ch]
  ensures G.nresp[ch] == ite(ok, 1, 0)

func (*server.Server).handlePublish(srv, ch, requestid, req) (err) [C21]
  noframe
  owned req
  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && G.nresp[ch] == 0 && G.naborted[ch] == 0 && G.nqueued[0] == 0 && G.pend[0] == 0 && !mine(ch, requestid)
  invariant G.nresp[ch] == 0 && G.pend[0] == 0 && G.nqueued[0] == 0 && G.naborted[ch] == 0
  atcall (*server.serverSecureChannel).Write(c, r, id) :: channel: c == ch && id == requestid && G.nresp[ch] == 0 || mine(c, id)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: kind: is(r, *ua.ServiceFault) || is(r, *ua.PublishResponse)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: handle: !mine(c, id) ==> ite(is(r, *ua.ServiceFault), as(r, *ua.ServiceFault).ResponseHeader.RequestHandle, as(r, *ua.PublishResponse).ResponseHeader.RequestHandle) == old(req.RequestHeader.RequestHandle)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: acks: is(r, *ua.PublishResponse) ==> len(as(r, *ua.PublishResponse).Results) == old(len(req.SubscriptionAcknowledgements))
  atcall send server.Session.publishRequests(s1, op) :: queued: op.ch == ch && op.requestId == requestid && op.req == req && len(op.results) == old(len(req.SubscriptionAcknowledgements))
  atcall (*server.Subscription).handleLatePublishRequest(s1, c, id, rq, res) :: late: c == ch && id == requestid && rq == req && len(res) == old(len(req.SubscriptionAcknowledgements))
  ensures one: err == nil ==> G.nresp[ch] + G.naborted[ch] + G.nqueued[0] == 1
  ensures most: G.nresp[ch] + G.naborted[ch] + G.nqueued[0] <= 1
