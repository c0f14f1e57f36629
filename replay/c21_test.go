package server

import (
	"fmt"
	"reflect"
	"testing"
	"time"

	"github.com/awcullen/opcua/ua"
)

// vresults: operations of a request and the results a non-fault response must carry for them; -1 when the service has none.
func vops(req ua.ServiceRequest) (string, string) {
	switch req.(type) {
	case *ua.BrowseRequest:
		return "NodesToBrowse", "Results"
	case *ua.BrowseNextRequest:
		return "ContinuationPoints", "Results"
	case *ua.TranslateBrowsePathsToNodeIDsRequest:
		return "BrowsePaths", "Results"
	case *ua.RegisterNodesRequest:
		return "NodesToRegister", "RegisteredNodeIDs"
	case *ua.ReadRequest:
		return "NodesToRead", "Results"
	case *ua.WriteRequest:
		return "NodesToWrite", "Results"
	case *ua.HistoryReadRequest:
		return "NodesToRead", ""
	case *ua.CallRequest:
		return "MethodsToCall", "Results"
	case *ua.CreateMonitoredItemsRequest:
		return "ItemsToCreate", "Results"
	case *ua.ModifyMonitoredItemsRequest:
		return "ItemsToModify", "Results"
	case *ua.SetMonitoringModeRequest:
		return "MonitoredItemIDs", "Results"
	case *ua.DeleteMonitoredItemsRequest:
		return "MonitoredItemIDs", "Results"
	case *ua.SetPublishingModeRequest:
		return "SubscriptionIDs", "Results"
	case *ua.DeleteSubscriptionsRequest:
		return "SubscriptionIDs", "Results"
	}
	return "", ""
}

type vunsupported struct{ ua.RequestHeader }

func TestVerifReplayC21(t *testing.T) {
	nfail := 0
	fail := func(f string, a ...any) {
		if nfail++; nfail < 20 {
			fmt.Println("FAILING-INPUT " + fmt.Sprintf(f, a...))
		}
		t.Fail()
	}
	id := uint32(1000)
	// check sends a request and judges the responses; the last one is returned
	check := func(what string, srv *Server, ch *serverSecureChannel, c *vconn, req ua.ServiceRequest, h uint32) ua.ServiceResponse {
		id++
		name := reflect.TypeOf(req).Elem().Name() + " " + what
		rs := vcall(srv, ch, c, req, id, time.Second)
		time.Sleep(2 * time.Millisecond)
		c.mu.Lock()
		rs = append([]vresp{}, c.out[len(c.out)-len(rs):]...)
		c.mu.Unlock()
		var mine []vresp
		for _, r := range rs {
			if r.id == id {
				mine = append(mine, r)
			}
		}
		if len(mine) != 1 {
			fail("%s (request id %d): %d responses with its id, %d in all", name, id, len(mine), len(rs))
			return nil
		}
		r := mine[0]
		if r.err != nil {
			fail("%s: response cannot be decoded: %v", name, r.err)
			return nil
		}
		if r.res.Header().RequestHandle != h {
			fail("%s: response carries request handle %d, the request had %d", name, r.res.Header().RequestHandle, h)
		}
		want := reflect.TypeOf(req).Elem().Name()
		want = want[:len(want)-len("Request")] + "Response"
		got := reflect.TypeOf(r.res).Elem().Name()
		if f, ok := r.res.(*ua.ServiceFault); ok {
			if uint32(f.ServiceResult) < 0x80000000 {
				fail("%s: fault with status 0x%X", name, uint32(f.ServiceResult))
			}
			return r.res
		}
		if got != want {
			fail("%s: answered with %s", name, got)
			return r.res
		}
		if o, rf := vops(req); rf != "" {
			n := reflect.ValueOf(req).Elem().FieldByName(o).Len()
			if m := reflect.ValueOf(r.res).Elem().FieldByName(rf).Len(); m != n {
				fail("%s: %d operations, %d results", name, n, m)
			}
		}
		return r.res
	}
	srv := vserver(t)
	ch, c := vchan(srv)
	mksub := func(s *Session, enabled bool) uint32 {
		r, ok := check("creating a subscription", srv, ch, c, vset(&ua.CreateSubscriptionRequest{RequestedPublishingInterval: 100000, RequestedLifetimeCount: 300, RequestedMaxKeepAliveCount: 100, PublishingEnabled: enabled}, s.authenticationToken, 9), 9).(*ua.CreateSubscriptionResponse)
		if !ok {
			fail("no subscription")
			return 0
		}
		return r.SubscriptionID
	}
	for round := 0; round < 4; round++ {
		s := vsession(srv, ch)
		sub := mksub(s, true)
		h := uint32(70000 * (round + 1))
		n := len(vrequests(0))
		for i := 0; i < n; i++ {
			req := vrequests(sub)[i]
			if _, ok := req.(*ua.PublishRequest); ok {
				continue
			}
			if o, _ := vops(req); o != "" {
				f := reflect.ValueOf(req).Elem().FieldByName(o)
				switch round {
				case 1:
					f.Set(reflect.Zero(f.Type()))
				case 2:
					f.Set(reflect.AppendSlice(f, reflect.AppendSlice(f, f)))
				case 3:
					for f.Len() < 2*5000 {
						f.Set(reflect.AppendSlice(f, f))
					}
					if f.Type().Elem().Kind() == reflect.Uint32 || true {
						f.Set(f.Slice(0, 6000))
					}
				}
			}
			h++
			check(fmt.Sprintf("with list variant %d", round), srv, ch, c, vset(req, s.authenticationToken, h), h)
		}
		// faults of every handler
		h += 1000
		for i := 0; i < n; i++ {
			h++
			check("with an unknown token", srv, ch, c, vset(vrequests(4)[i], ua.NewNodeIDNumeric(0, 1), h), h)
			h++
			x := vsession(srv, nil)
			check("with a session never activated", srv, ch, c, vset(vrequests(4)[i], x.authenticationToken, h), h)
			srv.SessionManager().Delete(x)
			x = vsession(srv, ch)
			if _, ok := vrequests(4)[i].(*ua.PublishRequest); !ok {
				h++
				check("with an unknown subscription", srv, ch, c, vset(vrequests(0xFFFFFFF0)[i], x.authenticationToken, h), h)
			}
			for _, ts := range []uint32{0, 1, 2, 3, 4, 77} {
				req := vrequests(sub)[i]
				if f := reflect.ValueOf(req).Elem().FieldByName("TimestampsToReturn"); f.IsValid() {
					f.SetInt(int64(ts))
					h++
					check(fmt.Sprint("with TimestampsToReturn ", ts), srv, ch, c, vset(req, x.authenticationToken, h), h)
				}
			}
			srv.SessionManager().Delete(x)
		}
		h++
		check("", srv, ch, c, vset(&ua.FindServersRequest{}, nil, h), h)
		h++
		check("", srv, ch, c, vset(&ua.FindServersRequest{ServerURIs: []string{"a", "urn:verif:server", "b"}}, nil, h), h)
		h++
		check("", srv, ch, c, vset(&ua.GetEndpointsRequest{EndpointURL: "opc.tcp://x"}, nil, h), h)
		h++
		check("", srv, ch, c, vset(&ua.GetEndpointsRequest{ProfileURIs: []string{"x"}}, nil, h), h)
		h++
		check("", srv, ch, c, vset(&ua.CreateSessionRequest{RequestedSessionTimeout: 60000}, nil, h), h)
		h++
		check("with an unknown token", srv, ch, c, vset(&ua.ActivateSessionRequest{}, ua.NewNodeIDNumeric(0, 1), h), h)
		x := vsession(srv, nil)
		h++
		check("with no identity", srv, ch, c, vset(&ua.ActivateSessionRequest{}, x.authenticationToken, h), h)
		for _, tok := range []ua.ExtensionObject{ua.AnonymousIdentityToken{PolicyID: "nope"}, ua.UserNameIdentityToken{UserName: "u", PolicyID: "nope"}, ua.X509IdentityToken{PolicyID: "nope"}, ua.IssuedIdentityToken{PolicyID: "nope"}, ua.AnonymousIdentityToken{PolicyID: ch.localEndpoint.UserIdentityTokens[0].PolicyID}} {
			h++
			check(fmt.Sprintf("with identity %T", tok), srv, ch, c, vset(&ua.ActivateSessionRequest{UserIdentityToken: tok}, x.authenticationToken, h), h)
		}
		h++
		if f, ok := check("(unsupported)", srv, ch, c, vset(&ua.QueryFirstRequest{}, s.authenticationToken, h), h).(*ua.ServiceFault); !ok || f.ServiceResult != ua.BadServiceUnsupported {
			fail("QueryFirstRequest: not refused as unsupported")
		}
		srv.SessionManager().Delete(s)
	}
	// publish requests: queued, overflowing, cancelled by the deletion of the last subscription
	{
		s := vsession(srv, ch)
		sub := mksub(s, true)
		c.mu.Lock()
		c.out = nil
		c.mu.Unlock()
		sent := map[uint32]uint32{}
		for i := uint32(0); i < 80; i++ {
			h := 500 + i
			if i%7 == 3 {
				h = 0
			}
			req := vset(&ua.PublishRequest{}, s.authenticationToken, h).(*ua.PublishRequest)
			req.TimeoutHint = 600000
			if i%3 == 0 {
				req.SubscriptionAcknowledgements = []ua.SubscriptionAcknowledgement{{SubscriptionID: sub, SequenceNumber: 5}, {SubscriptionID: 12345678, SequenceNumber: 5}}
			}
			sent[9000+i] = h
			srv.handleRequest(ch, req, 9000+i)
		}
		time.Sleep(20 * time.Millisecond)
		srv.handleRequest(ch, vset(&ua.DeleteSubscriptionsRequest{SubscriptionIDs: []uint32{sub}}, s.authenticationToken, 3), 3)
		time.Sleep(100 * time.Millisecond)
		c.mu.Lock()
		got := map[uint32]int{}
		for _, r := range c.out {
			if h, ok := sent[r.id]; ok && r.res != nil {
				got[r.id]++
				if r.res.Header().RequestHandle != h {
					fail("publish request %d with handle %d answered with handle %d", r.id, h, r.res.Header().RequestHandle)
				}
			}
		}
		c.mu.Unlock()
		if len(srv.SubscriptionManager().GetBySession(s)) == 0 {
			for i := uint32(9000); i < 9080; i++ {
				if got[i] != 1 {
					fail("80 publish requests, then the only subscription deleted: request %d got %d responses", i-9000, got[i])
				}
			}
		} else {
			for i := uint32(9000); i < 9080; i++ {
				if want := 80 - 64; i-9000 < uint32(want) && got[i] != 1 || got[i] > 1 {
					fail("80 publish requests into a queue of 64: request %d got %d responses", i-9000, got[i])
				}
			}
		}
		srv.SessionManager().Delete(s)
	}
	// publish requests still queued are answered when the session is closed
	{
		s := vsession(srv, ch)
		mksub(s, true)
		c.mu.Lock()
		c.out = nil
		c.mu.Unlock()
		for i := uint32(0); i < 5; i++ {
			req := vset(&ua.PublishRequest{}, s.authenticationToken, 600+i).(*ua.PublishRequest)
			req.TimeoutHint = 600000
			srv.handleRequest(ch, req, 9500+i)
		}
		time.Sleep(10 * time.Millisecond)
		srv.handleRequest(ch, vset(&ua.CloseSessionRequest{DeleteSubscriptions: true}, s.authenticationToken, 3), 3)
		time.Sleep(50 * time.Millisecond)
		c.mu.Lock()
		got := map[uint32]int{}
		for _, r := range c.out {
			got[r.id]++
			if r.res != nil && r.id >= 9500 && r.res.Header().RequestHandle != r.id-9500+600 {
				fail("session closed: publish request with handle %d answered with handle %d", r.id-9500+600, r.res.Header().RequestHandle)
			}
		}
		for _, i := range []uint32{3, 9500, 9501, 9502, 9503, 9504} {
			if got[i] != 1 {
				fail("5 publish requests queued, then the session closed: request id %d got %d responses", i, got[i])
			}
		}
		c.mu.Unlock()
	}
	// a late publish request answers with the results of its own acknowledgements, whatever the kind of response
	for _, keep := range []bool{true, false} {
		s := vsession(srv, ch)
		sub := mksub(s, true)
		x, _ := srv.SubscriptionManager().Get(sub)
		if x == nil {
			break
		}
		if !keep {
			check("", srv, ch, c, vset(vrequests(sub)[11], s.authenticationToken, 1), 1)
			time.Sleep(1500 * time.Millisecond)
		}
		x.Lock()
		x.isLate = true
		x.Unlock()
		id++
		rs := vcall(srv, ch, c, vset(&ua.PublishRequest{SubscriptionAcknowledgements: []ua.SubscriptionAcknowledgement{{SubscriptionID: sub, SequenceNumber: 99}, {SubscriptionID: 0xFFFFFF0, SequenceNumber: 1}}}, s.authenticationToken, 6), id, time.Second)
		if len(rs) != 1 {
			fail("publish request on a late subscription (keep-alive %v): %d responses", keep, len(rs))
		} else if p, ok := rs[0].res.(*ua.PublishResponse); !ok {
			fail("publish request on a late subscription (keep-alive %v): answered with %T", keep, rs[0].res)
		} else if len(p.Results) != 2 || p.Results[0] != ua.BadSequenceNumberUnknown || p.Results[1] != ua.BadSubscriptionIDInvalid {
			fail("publish request on a late subscription (keep-alive %v): acknowledging an unknown message and an unknown subscription gives %v", keep, p.Results)
		}
		srv.SubscriptionManager().Delete(x)
		x.Delete()
		srv.SessionManager().Delete(s)
	}
	// queued publish requests are answered by the publisher with their own correlation
	{
		s := vsession(srv, ch)
		sub := mksub(s, true)
		x, _ := srv.SubscriptionManager().Get(sub)
		c.mu.Lock()
		c.out = nil
		c.mu.Unlock()
		for i := uint32(0); i < 6; i++ {
			req := vset(&ua.PublishRequest{}, s.authenticationToken, 800+i).(*ua.PublishRequest)
			if i == 3 {
				req.TimeoutHint = 0 // no timeout
				req.Timestamp = time.Now().Add(-time.Hour)
			} else if i != 2 {
				req.TimeoutHint = 600000
			} else {
				req.TimeoutHint = 1
				req.Timestamp = time.Now().Add(-time.Hour)
			}
			for j := uint32(0); j < i; j++ {
				req.SubscriptionAcknowledgements = append(req.SubscriptionAcknowledgements, ua.SubscriptionAcknowledgement{SubscriptionID: sub, SequenceNumber: 77})
			}
			srv.handleRequest(ch, req, 9900+i)
		}
		for i := 0; i < 5; i++ {
			x.Lock()
			x.keepAliveCount = x.maxKeepAliveCount
			x.Unlock()
			x.publish(time.Now())
		}
		c.mu.Lock()
		got := map[uint32]int{}
		for _, r := range c.out {
			if r.id < 9900 || r.id > 9905 || r.res == nil {
				fail("publishing: response with unknown id %d", r.id)
				continue
			}
			got[r.id]++
			if r.res.Header().RequestHandle != r.id-9900+800 {
				fail("publishing: request %d with handle %d answered with handle %d", r.id, r.id-9900+800, r.res.Header().RequestHandle)
			}
			if _, ok := r.res.(*ua.ServiceFault); ok != (r.id == 9902) {
				fail("publishing: queued request %d (only the third has expired) answered with %T", r.id-9900, r.res)
			}
			if p, ok := r.res.(*ua.PublishResponse); ok && len(p.Results) != int(r.id-9900) {
				fail("publishing: request with %d acknowledgements answered with %d results", r.id-9900, len(p.Results))
			}
		}
		for i := uint32(9900); i < 9906; i++ {
			if got[i] != 1 {
				fail("publishing: queued request %d (of 6) got %d responses", i-9900, got[i])
			}
		}
		c.mu.Unlock()
	}
}
