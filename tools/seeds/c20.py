import sys; sys.path.insert(0,"/verif/tools")
from mkseed import make
pre='''package server
import ("testing";"time";"github.com/awcullen/opcua/ua")
func vsub(t *testing.T, srv *Server, ch *serverSecureChannel, c *vconn, s *Session, id uint32) uint32 {
	r := vcall(srv, ch, c, vset(&ua.CreateSubscriptionRequest{RequestedPublishingInterval: 100000, RequestedLifetimeCount: 300, RequestedMaxKeepAliveCount: 100, PublishingEnabled: true}, s.authenticationToken, id), id, time.Second)
	return r[0].res.(*ua.CreateSubscriptionResponse).SubscriptionID
}
'''
make("c20-orphan-modify","C20",[["server/server_service_set.go","""	if !ok || sub.sessionId != session.sessionId {
		session.modifySubscriptionErrorCount++""","""	if !ok || (sub.sessionId != session.sessionId && sub.session.SecureChannelId() != 0) {
		session.modifySubscriptionErrorCount++"""]],"the owner closed its session and left the subscription running","a subscription whose owner has gone can be modified by any other session","server",pre+'''
func TestDemo(t *testing.T) {
	srv := vserver(t)
	chA, cA := vchan(srv)
	chB, cB := vchan(srv)
	A, B := vsession(srv, chA), vsession(srv, chB)
	id := vsub(t, srv, chA, cA, A, 1)
	vcall(srv, chA, cA, vset(&ua.CloseSessionRequest{}, A.authenticationToken, 3), 3, time.Second)
	r := vcall(srv, chB, cB, vset(&ua.ModifySubscriptionRequest{SubscriptionID: id, RequestedPublishingInterval: 5000, RequestedLifetimeCount: 30, RequestedMaxKeepAliveCount: 10}, B.authenticationToken, 4), 4, time.Second)
	if len(r) != 1 { t.Fatal("no response") }
	if f, ok := r[0].res.(*ua.ServiceFault); !ok || f.ServiceResult != ua.BadSubscriptionIDInvalid { t.Fatalf("%T %v", r[0].res, r[0].res.Header().ServiceResult) }
}
''',["hsrv_test.go"])
make("c20-delete-batch","C20",[["server/server_service_set.go","""	sm := srv.SubscriptionManager()
	for i, id := range req.SubscriptionIDs {
		sub, ok := sm.Get(id)
		if ok && sub.sessionId == session.sessionId {
			sm.Delete(sub)""","""	sm := srv.SubscriptionManager()
	owned := false
	for i, id := range req.SubscriptionIDs {
		sub, ok := sm.Get(id)
		if ok {
			owned = owned || sub.sessionId == session.sessionId
		}
		if ok && owned {
			sm.Delete(sub)"""]],"one request that names an own subscription before somebody else's","DeleteSubscriptions deletes another session's subscription","server",pre+'''
func TestDemo(t *testing.T) {
	srv := vserver(t)
	chA, cA := vchan(srv)
	chB, cB := vchan(srv)
	A, B := vsession(srv, chA), vsession(srv, chB)
	a := vsub(t, srv, chA, cA, A, 1)
	b := vsub(t, srv, chB, cB, B, 2)
	vcall(srv, chB, cB, vset(&ua.DeleteSubscriptionsRequest{SubscriptionIDs: []uint32{b, a}}, B.authenticationToken, 4), 4, time.Second)
	if _, ok := srv.SubscriptionManager().Get(a); !ok { t.Fatal("foreign subscription deleted") }
}
''',["hsrv_test.go"])
make("c20-same-name","C20",[["server/subscription_manager.go","""		if sub.session == session {
			subs = append(subs, sub)
		}
	}
	return subs
""","""		if sub.session == session || sub.session.sessionName == session.sessionName && sub.session.timeout == session.timeout {
			subs = append(subs, sub)
		}
	}
	return subs
"""]],"two sessions created with the same name and timeout; one of them is closed with its subscriptions","closing a session deletes the subscriptions of its namesake","server",pre+'''
func TestDemo(t *testing.T) {
	srv := vserver(t)
	chA, cA := vchan(srv)
	chB, cB := vchan(srv)
	A, B := vsession(srv, chA), vsession(srv, chB)
	B.sessionName = A.sessionName
	a := vsub(t, srv, chA, cA, A, 1)
	vsub(t, srv, chB, cB, B, 2)
	vcall(srv, chB, cB, vset(&ua.CloseSessionRequest{DeleteSubscriptions: true}, B.authenticationToken, 4), 4, time.Second)
	if _, ok := srv.SubscriptionManager().Get(a); !ok { t.Fatal("foreign subscription deleted") }
}
''',["hsrv_test.go"])
make("c20-keepalive-foreign","C20",[["server/server_service_set.go","""	sub, ok := srv.SubscriptionManager().Get(req.SubscriptionID)
	if !ok || sub.sessionId != session.sessionId {
		session.modifyMonitoredItemsErrorCount++""","""	sub, ok := srv.SubscriptionManager().Get(req.SubscriptionID)
	if ok {
		sub.Lock()
		sub.lifetimeCount = 0
		sub.Unlock()
	}
	if !ok || sub.sessionId != session.sessionId {
		session.modifyMonitoredItemsErrorCount++"""]],"another session calls ModifyMonitoredItems on the subscription","a refused request of a foreign session restarts the subscription's lifetime counter, so it can be kept from expiring","server",pre+'''
func TestDemo(t *testing.T) {
	srv := vserver(t)
	chA, cA := vchan(srv)
	chB, cB := vchan(srv)
	A, B := vsession(srv, chA), vsession(srv, chB)
	a := vsub(t, srv, chA, cA, A, 1)
	s, _ := srv.SubscriptionManager().Get(a)
	s.Lock(); s.lifetimeCount = 7; s.Unlock()
	vcall(srv, chB, cB, vset(&ua.ModifyMonitoredItemsRequest{SubscriptionID: a, TimestampsToReturn: ua.TimestampsToReturnBoth, ItemsToModify: []ua.MonitoredItemModifyRequest{{MonitoredItemID: 1}}}, B.authenticationToken, 4), 4, time.Second)
	s.Lock(); defer s.Unlock()
	if s.lifetimeCount != 7 { t.Fatal("lifetime counter changed by a foreign session") }
}
''',["hsrv_test.go"])
