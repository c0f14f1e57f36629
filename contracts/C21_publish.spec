# Publish requests: answered at once, or queued once; a queued request that is taken from the queue is answered exactly
# once, on its own channel, with its own id, handle and acknowledgement results.
package server
ghost nresp int
ghost naborted int
ghost nqueued int
ghost pend int
ghost curch int
ghost curid int
ghost curhandle int
ghost curresults int
ghost curlen int
ghost curhint int
define okop(op) = op != nil && op.ch != nil && op.req != nil
define mine(c, id) = ufb(dequeued, base(c), id)
func (*server.serverSecureChannel).Write(ch, r, id) (err)
  trusted
  modifies G.nresp[ch], G.pend[0]
  ensures G.nresp[ch] == old(G.nresp[ch]) + ite(mine(ch, id), 0, 1)
  ensures G.pend[0] == old(G.pend[0]) - ite(mine(ch, id), 1, 0)
func (*server.serverSecureChannel).Abort(ch, reason, message) (err)
  trusted
  modifies G.naborted[ch]
  ensures G.naborted[ch] == old(G.naborted[ch]) + 1
func recv server.Session.publishRequests(s) (op)
  trusted
  modifies G.pend[0], G.curch[0], G.curid[0], G.curhandle[0], G.curresults[0], G.curlen[0], G.curhint[0]
  ensures okop(op) && mine(op.ch, op.requestId)
  ensures G.pend[0] == old(G.pend[0]) + 1
  ensures G.curch[0] == base(op.ch) && G.curid[0] == op.requestId && G.curhandle[0] == op.req.RequestHeader.RequestHandle && G.curresults[0] == base(op.results) && G.curlen[0] == len(op.results) && G.curhint[0] == op.req.RequestHeader.TimeoutHint
func send server.Session.publishRequests(s, op)
  trusted
  requires okop(op)
  modifies G.nqueued[0]
  ensures G.nqueued[0] == old(G.nqueued[0]) + 1
func (*server.SessionManager).Get(m, tok) (s, ok)
  trusted
  ensures ok ==> s != nil
  ensures !ok ==> s == nil
func (*server.Session).SecureChannelId(s) (r)
  trusted
func (*server.SessionManager).Delete(m, s)
  trusted
  modifies everything
noinline (*server.SubscriptionManager).Get (*server.SubscriptionManager).GetBySession (*server.SubscriptionManager).Len (*server.SubscriptionManager).Delete (*server.Subscription).acknowledge (*server.Subscription).deleteImpl
# monitored item methods change only monitored items; the retransmission queue is not looked at here (C15)
func invoke server.MonitoredItem.notificationsAvailable(i, tn, late, resend) (r)
  trusted
func invoke server.MonitoredItem.MonitoringMode(i) (r)
  trusted
func invoke server.MonitoredItem.Triggered(i) (r)
  trusted
func invoke server.MonitoredItem.ClientHandle(i) (r)
  trusted
func (*server.EventMonitoredItem).notifications(i, max) (r, more)
  trusted
func (*server.DataChangeMonitoredItem).notifications(i, max) (r, more)
  trusted
func (*container/list.List).Front(l) (e)
  trusted
func (*container/list.List).Len(l) (n)
  trusted
  ensures n >= 0
func (*container/list.List).Remove(l, e) (v)
  trusted
func (*container/list.List).PushBack(l, v) (e)
  trusted
  ensures e != nil
func (*container/list.Element).Next(l) (e)
  trusted

func (*server.Session).addPublishRequest(s, ch, requestid, req, results) (err) [C21]
  noframe
  requires s != nil && ch != nil && req != nil && G.pend[0] == 0 && !mine(ch, requestid)
  invariant G.pend[0] == 0 && G.nqueued[0] == old(G.nqueued[0])
  invariant G.nresp[ch] == old(G.nresp[ch])
  atcall send server.Session.publishRequests(s1, op) :: queued: s1 == s && op.ch == ch && op.requestId == requestid && op.req == req && base(op.results) == base(results) && len(op.results) == len(results)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: evicted: G.pend[0] == 1 && base(c) == G.curch[0] && id == G.curid[0] && is(r, *ua.ServiceFault) && as(r, *ua.ServiceFault).ResponseHeader.RequestHandle == G.curhandle[0] && as(r, *ua.ServiceFault).ResponseHeader.ServiceResult == 0x80780000
  ensures answered: G.pend[0] == 0
  ensures kept: err == nil ==> G.nqueued[0] == old(G.nqueued[0]) + 1
  ensures closed: err != nil ==> G.nqueued[0] == old(G.nqueued[0])
  ensures notme: G.nresp[ch] == old(G.nresp[ch])

func (*server.Session).removePublishRequest(s) (c, id, rq, res, ok, err) [C21]
  noframe
  requires s != nil && G.pend[0] == 0
  invariant G.pend[0] == 0
  atcall (*server.serverSecureChannel).Write(w, r, i) :: expired: G.curhint[0] > 0 && G.pend[0] == 1 && base(w) == G.curch[0] && i == G.curid[0] && is(r, *ua.ServiceFault) && as(r, *ua.ServiceFault).ResponseHeader.RequestHandle == G.curhandle[0] && as(r, *ua.ServiceFault).ResponseHeader.ServiceResult == 0x800a0000
  ensures pending: G.pend[0] == ite(ok, 1, 0)
  ensures noerr: ok ==> err == nil
  ensures same: ok ==> base(c) == G.curch[0] && id == G.curid[0] && rq.RequestHeader.RequestHandle == G.curhandle[0] && base(res) == G.curresults[0] && len(res) == G.curlen[0]
  ensures dequeued: ok ==> c != nil && rq != nil && mine(c, id)

func (*server.Subscription).handleLatePublishRequest(s, ch, requestid, req, results) (ok, err) [C21]
  invtimeout 300
  noframe
  owned req
  requires s != nil && ch != nil && req != nil && G.nresp[ch] == 0 && !mine(ch, requestid)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: once: c == ch && id == requestid && G.nresp[ch] == 0
  atcall (*server.serverSecureChannel).Write(c, r, id) :: kind: is(r, *ua.PublishResponse)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: handle: as(r, *ua.PublishResponse).ResponseHeader.RequestHandle == old(req.RequestHeader.RequestHandle)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: acks: base(as(r, *ua.PublishResponse).Results) == base(results) && len(as(r, *ua.PublishResponse).Results) == len(results)
  atcall (*server.serverSecureChannel).Write(c, r, id) :: subscription: as(r, *ua.PublishResponse).SubscriptionID == old(s.id)
  ensures answered: G.nresp[ch] == ite(ok, 1, 0)

func (*server.Subscription).publish(s, tn) (err) [C21]
  invtimeout 300
  noframe
  requires s != nil && G.pend[0] == 0
  atcall (*server.serverSecureChannel).Write(c, r, id) :: once: G.pend[0] == 1 && base(c) == G.curch[0] && id == G.curid[0]
  atcall (*server.serverSecureChannel).Write(c, r, id) :: handle: is(r, *ua.PublishResponse) ==> as(r, *ua.PublishResponse).ResponseHeader.RequestHandle == G.curhandle[0]
  atcall (*server.serverSecureChannel).Write(c, r, id) :: acks: is(r, *ua.PublishResponse) ==> base(as(r, *ua.PublishResponse).Results) == G.curresults[0] && len(as(r, *ua.PublishResponse).Results) == G.curlen[0]
  ensures answered: G.pend[0] == 0

