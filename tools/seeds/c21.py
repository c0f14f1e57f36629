import sys; sys.path.insert(0,"/verif/tools")
from mkseed import make
make("c21-evict-wrong-id","C21",[["server/session.go","""						ServiceResult: ua.BadTooManyPublishRequests,
					},
				},
				op.requestId,
""","""						ServiceResult: ua.BadTooManyPublishRequests,
					},
				},
				requestid,
"""]],"a 65th publish request while 64 are queued","the evicted publish request is answered under the id of the new one, so one id gets two responses and one none","server",'''package server
import ("testing";"time";"github.com/awcullen/opcua/ua")
func TestDemo(t *testing.T) {
	srv := vserver(t)
	ch, c := vchan(srv)
	s := vsession(srv, ch)
	vcall(srv, ch, c, vset(&ua.CreateSubscriptionRequest{RequestedPublishingInterval: 100000, RequestedLifetimeCount: 300, RequestedMaxKeepAliveCount: 100, PublishingEnabled: true}, s.authenticationToken, 1), 1, time.Second)
	for i := uint32(0); i < 65; i++ {
		r := vset(&ua.PublishRequest{}, s.authenticationToken, 100+i).(*ua.PublishRequest)
		r.TimeoutHint = 600000
		srv.handleRequest(ch, r, 1000+i)
	}
	time.Sleep(20 * time.Millisecond)
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, r := range c.out {
		if r.id >= 1000 && r.res.Header().RequestHandle != r.id-1000+100 { t.Fatalf("request id %d answered with handle %d", r.id, r.res.Header().RequestHandle) }
	}
}
''',["hsrv_test.go"])
make("c21-publishmode-repeat","C21",[["server/server_service_set.go","""	results := make([]ua.StatusCode, len(req.SubscriptionIDs))
	sm := srv.SubscriptionManager()
	for i, id := range req.SubscriptionIDs {
		sub, ok := sm.Get(id)
		if ok && sub.sessionId == session.sessionId {
			sub.SetPublishingMode(req.PublishingEnabled)
			results[i] = ua.Good
		} else {
			results[i] = ua.BadSubscriptionIDInvalid
		}
	}
""","""	results := make([]ua.StatusCode, 0, len(req.SubscriptionIDs))
	sm := srv.SubscriptionManager()
	last := uint32(0)
	for _, id := range req.SubscriptionIDs {
		if id == last && id != 0 {
			continue
		}
		last = id
		sub, ok := sm.Get(id)
		if ok && sub.sessionId == session.sessionId {
			sub.SetPublishingMode(req.PublishingEnabled)
			results = append(results, ua.Good)
		} else {
			results = append(results, ua.BadSubscriptionIDInvalid)
		}
	}
"""]],"a SetPublishingMode request that names the same subscription twice in a row","fewer results than operations","server",'''package server
import ("testing";"time";"github.com/awcullen/opcua/ua")
func TestDemo(t *testing.T) {
	srv := vserver(t)
	ch, c := vchan(srv)
	s := vsession(srv, ch)
	rs := vcall(srv, ch, c, vset(&ua.SetPublishingModeRequest{SubscriptionIDs: []uint32{7, 7, 8}}, s.authenticationToken, 1), 1, time.Second)
	if len(rs) != 1 { t.Fatal("no response") }
	if r, ok := rs[0].res.(*ua.SetPublishingModeResponse); !ok || len(r.Results) != 3 { t.Fatalf("%+v", rs[0].res) }
}
''',["hsrv_test.go"])
make("c21-drain-stops","C21",[["server/server_service_set.go","""			if err != nil {
				return err
			}
			ch, requestid, req, _, ok, err = session.removePublishRequest()
""","""			if err != nil {
				return err
			}
			if req.RequestHandle == 0 {
				return nil
			}
			ch, requestid, req, _, ok, err = session.removePublishRequest()
"""]],"the last subscription deleted while several publish requests are queued, one of them with request handle 0 (the value of clients that do not use handles)","the publish requests behind it are never answered","server",'''package server
import ("testing";"time";"github.com/awcullen/opcua/ua")
func TestDemo(t *testing.T) {
	srv := vserver(t)
	ch, c := vchan(srv)
	s := vsession(srv, ch)
	rs := vcall(srv, ch, c, vset(&ua.CreateSubscriptionRequest{RequestedPublishingInterval: 100000, RequestedLifetimeCount: 300, RequestedMaxKeepAliveCount: 100, PublishingEnabled: true}, s.authenticationToken, 1), 1, time.Second)
	sub := rs[0].res.(*ua.CreateSubscriptionResponse).SubscriptionID
	for i := uint32(0); i < 4; i++ {
		r := vset(&ua.PublishRequest{}, s.authenticationToken, 0).(*ua.PublishRequest)
		r.TimeoutHint = 600000
		srv.handleRequest(ch, r, 1000+i)
	}
	srv.handleRequest(ch, vset(&ua.DeleteSubscriptionsRequest{SubscriptionIDs: []uint32{sub}}, s.authenticationToken, 2), 2)
	time.Sleep(30 * time.Millisecond)
	c.mu.Lock()
	defer c.mu.Unlock()
	got := map[uint32]int{}
	for _, r := range c.out { got[r.id]++ }
	for i := uint32(1000); i < 1004; i++ { if got[i] != 1 { t.Fatalf("publish request %d: %d responses", i, got[i]) } }
}
''',["hsrv_test.go"])
