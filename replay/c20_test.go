package server

import (
	"fmt"
	"reflect"
	"testing"
	"time"

	"github.com/awcullen/opcua/ua"
)

// vsnap: everything about a subscription that a client can observe or change.
func vsnap(srv *Server, id uint32) string {
	sub, ok := srv.SubscriptionManager().Get(id)
	if !ok {
		return "deleted"
	}
	s := ""
	n := uint32(0)
	for _, it := range sub.Items() {
		n += it.ID()
		s += fmt.Sprintf("item %d mode %v handle %d queue %d sampling %v trig %v;", it.ID(), it.MonitoringMode(), it.ClientHandle(), it.QueueSize(), it.SamplingInterval(), vtriggers(it))
	}
	sub.RLock()
	defer sub.RUnlock()
	q := ""
	for e := sub.retransmissionQueue.Front(); e != nil; e = e.Next() {
		if nm, ok := e.Value.(ua.NotificationMessage); ok {
			q += fmt.Sprint(nm.SequenceNumber, " ")
		} else {
			q += "? "
		}
	}
	return fmt.Sprintf("items %d sum %d; interval %v keep %d life %d max %d prio %d pub %v lifetime %d resend %v unsent [%s] republished %d modified %d", len(sub.items), n, sub.publishingInterval, sub.maxKeepAliveCount, sub.maxLifetimeCount, sub.maxNotificationsPerPublish, sub.priority, sub.publishingEnabled, sub.lifetimeCount, sub.resend, q, sub.republishMessageCount, sub.modifyCount) + vsort(s)
}
func vsort(s string) string {
	c := map[rune]int{}
	for _, r := range s {
		c[r]++
	}
	return fmt.Sprint(c)
}
func vtriggers(it MonitoredItem) int {
	v := reflect.ValueOf(it).Elem().FieldByName("triggeredItems")
	if v.IsValid() && v.Kind() == reflect.Map {
		return v.Len()
	}
	return 0
}

func TestVerifReplayC20(t *testing.T) {
	fail := func(f string, a ...any) {
		fmt.Println("FAILING-INPUT " + fmt.Sprintf(f, a...))
		t.Fail()
	}
	srv := vserver(t)
	st := ua.VariableIDServerServerStatusCurrentTime
	item := func(h uint32) ua.MonitoredItemCreateRequest {
		return ua.MonitoredItemCreateRequest{ItemToMonitor: ua.ReadValueID{NodeID: st, AttributeID: ua.AttributeIDValue}, MonitoringMode: ua.MonitoringModeReporting, RequestedParameters: ua.MonitoringParameters{ClientHandle: h, SamplingInterval: 100000, QueueSize: 1}}
	}
	create := func(ch *serverSecureChannel, c *vconn, tok ua.NodeID, id uint32) (uint32, []uint32) {
		r := vcall(srv, ch, c, vset(&ua.CreateSubscriptionRequest{RequestedPublishingInterval: 3600000, RequestedLifetimeCount: 300, RequestedMaxKeepAliveCount: 100, PublishingEnabled: true, Priority: 7}, tok, id), id, time.Second)
		if len(r) != 1 {
			t.Fatal("no subscription")
		}
		sid := r[0].res.(*ua.CreateSubscriptionResponse).SubscriptionID
		r = vcall(srv, ch, c, vset(&ua.CreateMonitoredItemsRequest{SubscriptionID: sid, TimestampsToReturn: ua.TimestampsToReturnBoth, ItemsToCreate: []ua.MonitoredItemCreateRequest{item(1), item(2), item(3)}}, tok, id+1), id+1, time.Second)
		var ids []uint32
		for _, x := range r[0].res.(*ua.CreateMonitoredItemsResponse).Results {
			ids = append(ids, x.MonitoredItemID)
		}
		return sid, ids
	}
	for _, owner := range []string{"alive", "closed"} {
		chA, cA := vchan(srv)
		chB, cB := vchan(srv)
		A, B := vsession(srv, chA), vsession(srv, chB)
		B.sessionName = A.sessionName // the name of a session is no identity
		subA, items := create(chA, cA, A.authenticationToken, 100)
		subB, _ := create(chB, cB, B.authenticationToken, 200)
		sA, _ := srv.SubscriptionManager().Get(subA)
		sA.Lock()
		sA.lifetimeCount = 5
		for n := uint32(1); n <= 3; n++ {
			sA.retransmissionQueue.PushBack(ua.NotificationMessage{SequenceNumber: n, PublishTime: time.Now()})
		}
		sA.Unlock()
		if owner == "closed" {
			// the owner goes away and leaves its subscription behind
			vcall(srv, chA, cA, vset(&ua.CloseSessionRequest{}, A.authenticationToken, 300), 300, time.Second)
			if _, ok := srv.SubscriptionManager().Get(subA); !ok {
				fail("a session closed without deleting its subscriptions lost one")
				continue
			}
		}
		before := vsnap(srv, subA)
		id := uint32(1000)
		call := func(req ua.ServiceRequest) ua.ServiceResponse {
			id++
			r := vcall(srv, chB, cB, vset(req, B.authenticationToken, id), id, 2*time.Second)
			if len(r) == 0 {
				return nil
			}
			return r[0].res
		}
		judge := func(what string, req ua.ServiceRequest, want func(ua.ServiceResponse) (any, bool)) {
			res := call(req)
			if res == nil {
				fail("%s for another session's subscription (%s owner): no response", what, owner)
			} else if got, ok := want(res); !ok {
				fail("%s for another session's subscription (%s owner): answered %v", what, owner, got)
			}
			if after := vsnap(srv, subA); after != before {
				fail("%s for another session's subscription (%s owner) changed it from %s to %s", what, owner, before, after)
				before = after
			}
		}
		fault := func(res ua.ServiceResponse) (any, bool) {
			f, ok := res.(*ua.ServiceFault)
			return fmt.Sprintf("%T %v", res, res.Header().ServiceResult), ok && f.ServiceResult == ua.BadSubscriptionIDInvalid
		}
		each := func(res ua.ServiceResponse) (any, bool) {
			v := reflect.ValueOf(res).Elem().FieldByName("Results")
			if !v.IsValid() {
				return fmt.Sprintf("%T", res), false
			}
			rs := v.Interface().([]ua.StatusCode)
			for i, r := range rs {
				if (i%2 == 0) != (r == ua.BadSubscriptionIDInvalid) {
					return rs, false
				}
			}
			return rs, len(rs) > 0
		}
		judge("CreateMonitoredItems", &ua.CreateMonitoredItemsRequest{SubscriptionID: subA, TimestampsToReturn: ua.TimestampsToReturnBoth, ItemsToCreate: []ua.MonitoredItemCreateRequest{item(9)}}, fault)
		judge("ModifyMonitoredItems", &ua.ModifyMonitoredItemsRequest{SubscriptionID: subA, TimestampsToReturn: ua.TimestampsToReturnBoth, ItemsToModify: []ua.MonitoredItemModifyRequest{{MonitoredItemID: items[0], RequestedParameters: ua.MonitoringParameters{ClientHandle: 77, SamplingInterval: 5000, QueueSize: 9}}}}, fault)
		judge("SetMonitoringMode", &ua.SetMonitoringModeRequest{SubscriptionID: subA, MonitoringMode: ua.MonitoringModeDisabled, MonitoredItemIDs: items}, fault)
		judge("SetTriggering", &ua.SetTriggeringRequest{SubscriptionID: subA, TriggeringItemID: items[0], LinksToAdd: items[1:]}, fault)
		judge("DeleteMonitoredItems", &ua.DeleteMonitoredItemsRequest{SubscriptionID: subA, MonitoredItemIDs: items[:1]}, fault)
		judge("ModifySubscription", &ua.ModifySubscriptionRequest{SubscriptionID: subA, RequestedPublishingInterval: 7200000, RequestedLifetimeCount: 60, RequestedMaxKeepAliveCount: 20, Priority: 1}, fault)
		judge("Republish", &ua.RepublishRequest{SubscriptionID: subA, RetransmitSequenceNumber: 2}, fault)
		judge("Republish of an unavailable message", &ua.RepublishRequest{SubscriptionID: subA, RetransmitSequenceNumber: 99}, fault)
		judge("SetPublishingMode", &ua.SetPublishingModeRequest{SubscriptionIDs: []uint32{subA, subB}, PublishingEnabled: false}, each)
		for _, m := range []ua.NodeID{ua.MethodIDServerGetMonitoredItems, ua.MethodIDServerResendData} {
			judge(fmt.Sprintf("Call %v", m), &ua.CallRequest{MethodsToCall: []ua.CallMethodRequest{{ObjectID: ua.ObjectIDServer, MethodID: m, InputArguments: []ua.Variant{subA}}}}, func(res ua.ServiceResponse) (any, bool) {
				r, ok := res.(*ua.CallResponse)
				if !ok {
					return res, false
				}
				return r.Results, len(r.Results) == 1 && uint32(r.Results[0].StatusCode)&0x80000000 != 0 && len(r.Results[0].OutputArguments) == 0
			})
		}
		// acknowledgements: the response to the publish request that carried them comes with B's next notification
		sB, _ := srv.SubscriptionManager().Get(subB)
		sB.Lock()
		sB.publishingEnabled = true
		sB.retransmissionQueue.PushBack(ua.NotificationMessage{SequenceNumber: 2, PublishTime: time.Now()})
		sB.isLate = true
		sB.Unlock()
		id++
		pub := vset(&ua.PublishRequest{SubscriptionAcknowledgements: []ua.SubscriptionAcknowledgement{{SubscriptionID: subA, SequenceNumber: 2}, {SubscriptionID: subB, SequenceNumber: 2}, {SubscriptionID: subA, SequenceNumber: 99}}}, B.authenticationToken, id).(*ua.PublishRequest)
		pub.TimeoutHint = 600000
		srv.handleRequest(chB, pub, id)
		if after := vsnap(srv, subA); after != before {
			fail("Publish acknowledging messages of another session's subscription (%s owner) changed it from %s to %s", owner, before, after)
			before = after
		}
		// what A's subscription has to say never goes to B; what B's has to say does not answer A's requests
		sA.Lock()
		sA.publishingEnabled = true
		sA.Unlock()
		for n := 0; n < 3; n++ {
			sA.publish(time.Now().Add(time.Hour))
			sB.publish(time.Now().Add(time.Hour))
		}
		time.Sleep(20 * time.Millisecond)
		cB.mu.Lock()
		for _, r := range cB.out {
			if p, ok := r.res.(*ua.PublishResponse); ok {
				if p.SubscriptionID == subA {
					fail("a notification of a subscription (%s owner) was delivered to another session", owner)
				}
				for i, x := range p.Results {
					if (i%2 == 0) != (x == ua.BadSubscriptionIDInvalid) {
						fail("acknowledgements [other, own, other] answered %v", p.Results)
					}
				}
			}
		}
		cB.mu.Unlock()
		before = vsnap(srv, subA)
		judge("DeleteSubscriptions", &ua.DeleteSubscriptionsRequest{SubscriptionIDs: []uint32{subA, subB, subA}}, each)
		judge("CloseSession", &ua.CloseSessionRequest{DeleteSubscriptions: true}, func(res ua.ServiceResponse) (any, bool) {
			_, ok := res.(*ua.CloseSessionResponse)
			return res, ok
		})
	}
}
