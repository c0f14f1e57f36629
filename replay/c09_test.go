package server

import (
	"fmt"
	"reflect"
	"testing"
	"time"

	"github.com/awcullen/opcua/ua"
)

// TestVerifReplayC09 sends every session-scoped request with a token that is unknown, expired, not activated or bound to
// another channel, and on a discovery-only channel, and looks for one that is not refused for the right reason.
func TestVerifReplayC09(t *testing.T) {
	fail := func(f string, a ...any) {
		fmt.Println("FAILING-INPUT " + fmt.Sprintf(f, a...))
		t.Fail()
	}
	srv := vserver(t)
	own, ownc := vchan(srv)
	other, otherc := vchan(srv)
	victim := vsession(srv, own)
	r := vcall(srv, own, ownc, vset(&ua.CreateSubscriptionRequest{RequestedPublishingInterval: 100000, RequestedLifetimeCount: 30, RequestedMaxKeepAliveCount: 10}, victim.authenticationToken, 1), 1, time.Second)
	var sub uint32
	if len(r) == 1 {
		if cs, ok := r[0].res.(*ua.CreateSubscriptionResponse); ok {
			sub = cs.SubscriptionID
		}
	}
	for i := uint32(0); i < 3; i++ {
		vcall(srv, own, ownc, vset(&ua.PublishRequest{}, victim.authenticationToken, 2+i), 2+i, 20*time.Millisecond)
	}
	queued := len(victim.publishRequests)
	one := func(what string, ch *serverSecureChannel, c *vconn, tok ua.NodeID, want ua.StatusCode, i int) {
		req := vset(vrequests(sub)[i], tok, 77)
		name := reflect.TypeOf(req).Elem().Name()
		ns, nsub := srv.SessionManager().Len(), srv.SubscriptionManager().Len()
		rs := vcall(srv, ch, c, req, 5, 150*time.Millisecond)
		if len(rs) != 1 {
			fail("%s with %s: %d responses (%v)", name, what, len(rs), rs)
			return
		}
		f, ok := rs[0].res.(*ua.ServiceFault)
		if !ok {
			fail("%s with %s: answered with %T, want a fault", name, what, rs[0].res)
		} else if f.ServiceResult != want {
			fail("%s with %s: fault 0x%X, want 0x%X", name, what, uint32(f.ServiceResult), uint32(want))
		}
		if srv.SubscriptionManager().Len() != nsub {
			fail("%s with %s: number of subscriptions changed", name, what)
		}
		if want != ua.BadSessionNotActivated && srv.SessionManager().Len() != ns {
			fail("%s with %s: number of sessions changed", name, what)
		}
		if n := len(victim.publishRequests); n != queued {
			fail("%s with %s: %d publish requests queued for the session before, %d after", name, what, queued, n)
		}
	}
	for i := range vrequests(0) {
		one("an unknown token", own, ownc, ua.NewNodeIDNumeric(0, 1), ua.BadSessionIDInvalid, i)
		one("no token", own, ownc, nil, ua.BadSessionIDInvalid, i)
		one("a token bound to another channel", other, otherc, victim.authenticationToken, ua.BadSecureChannelIDInvalid, i)
		s := vsession(srv, nil)
		one("a session never activated", own, ownc, s.authenticationToken, ua.BadSessionNotActivated, i)
		srv.SessionManager().Delete(s)
		s = vsession(srv, own)
		s.lastAccess = time.Now().Add(-61 * time.Second)
		one("a session idle past its timeout", own, ownc, s.authenticationToken, ua.BadSessionIDInvalid, i)
		one("a session idle past its timeout (second request)", own, ownc, s.authenticationToken, ua.BadSessionIDInvalid, i)
		srv.SessionManager().Delete(s)
		s = vsession(srv, own)
		tok := s.authenticationToken
		srv.SessionManager().Delete(s)
		one("a closed session", own, ownc, tok, ua.BadSessionIDInvalid, i)
		d, dc := vchan(srv)
		d.discoveryOnly = true
		s = vsession(srv, d)
		req := vset(vrequests(sub)[i], s.authenticationToken, 1)
		name := reflect.TypeOf(req).Elem().Name()
		nsub := srv.SubscriptionManager().Len()
		if rs := vcall(srv, d, dc, req, 5, 20*time.Millisecond); len(rs) != 0 {
			fail("%s on a discovery-only channel: answered with %T", name, rs[0].res)
		}
		if srv.SubscriptionManager().Len() != nsub {
			fail("%s on a discovery-only channel: number of subscriptions changed", name)
		}
		srv.SessionManager().Delete(s)
	}
	// a session that is used within its timeout stays valid
	s := vsession(srv, own)
	s.lastAccess = time.Now().Add(-59 * time.Second)
	if rs := vcall(srv, own, ownc, vset(vrequests(0)[6], s.authenticationToken, 1), 5, time.Second); len(rs) != 1 {
		fail("ReadRequest on a valid session: no response")
	} else if _, ok := rs[0].res.(*ua.ReadResponse); !ok {
		fail("ReadRequest on a session used within its timeout: refused with %+v", rs[0].res)
	}
	if age := time.Since(s.LastAccess()); age > 10*time.Second {
		fail("a request does not renew the session: last access %v ago", age)
	}
	// a session moved to another channel is refused on the first
	s.SetSecureChannelId(other.channelID)
	if rs := vcall(srv, own, ownc, vset(vrequests(0)[6], s.authenticationToken, 1), 5, time.Second); len(rs) != 1 {
		fail("ReadRequest on a session moved to another channel: no response")
	} else if _, ok := rs[0].res.(*ua.ServiceFault); !ok {
		fail("ReadRequest on the old channel of a session moved to another channel is answered with %T", rs[0].res)
	}
}
