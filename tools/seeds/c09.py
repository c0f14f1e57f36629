import sys; sys.path.insert(0,"/verif/tools")
from mkseed import make
make("c09-get-renews-expired","C09",[["server/session_manager.go","""	if s, ok := m.sessionsByToken[authenticationToken]; ok && !s.IsExpired(){
		s.SetLastAccess(time.Now())
		return s, ok
	}
	return nil, false
""","""	s, ok := m.sessionsByToken[authenticationToken]
	if !ok {
		return nil, false
	}
	expired := s.IsExpired()
	s.SetLastAccess(time.Now())
	if expired {
		return nil, false
	}
	return s, true
"""]],
 "a session idle past its timeout, then two requests with its token before the expiry sweep runs","the refused request renews the expired session, so the next request with the same token is served","server",'''package server
import ("testing";"time";"github.com/awcullen/opcua/ua")
func TestDemo(t *testing.T) {
	srv := vserver(t)
	ch, c := vchan(srv)
	s := vsession(srv, ch)
	s.lastAccess = time.Now().Add(-2 * time.Minute)
	for i := 0; i < 3; i++ {
		rs := vcall(srv, ch, c, vset(&ua.ReadRequest{TimestampsToReturn: ua.TimestampsToReturnBoth, NodesToRead: []ua.ReadValueID{{NodeID: ua.VariableIDServerServiceLevel, AttributeID: ua.AttributeIDValue}}}, s.authenticationToken, 1), 1, time.Second)
		if len(rs) != 1 { t.Fatal("no response") }
		if _, ok := rs[0].res.(*ua.ServiceFault); !ok { t.Fatalf("request %d on an expired session is served: %T", i+1, rs[0].res) }
	}
}
''',["hsrv_test.go"])
make("c09-publish-otherchannel","C09",[["server/server_service_set.go","""	if id != ch.ChannelID() {
		session.publishErrorCount++
""","""	if id != ch.ChannelID() && !session.hasPublishRequests() {
		session.publishErrorCount++
"""],["server/session.go","""func (s *Session) IsExpired() bool {
""","""func (s *Session) hasPublishRequests() bool {
	return len(s.publishRequests) > 0
}

func (s *Session) IsExpired() bool {
"""]],
 "a publish request already queued for the session, then a publish request with its token from another channel","a client on another channel that knows the token receives the session's notifications","server",'''package server
import ("testing";"time";"github.com/awcullen/opcua/ua")
func TestDemo(t *testing.T) {
	srv := vserver(t)
	ch, c := vchan(srv)
	other, oc := vchan(srv)
	s := vsession(srv, ch)
	vcall(srv, ch, c, vset(&ua.CreateSubscriptionRequest{RequestedPublishingInterval: 100000, RequestedLifetimeCount: 30, RequestedMaxKeepAliveCount: 10}, s.authenticationToken, 1), 1, time.Second)
	vcall(srv, ch, c, vset(&ua.PublishRequest{}, s.authenticationToken, 2), 2, 100*time.Millisecond)
	vcall(srv, ch, c, vset(&ua.PublishRequest{}, s.authenticationToken, 3), 3, 100*time.Millisecond)
	rs := vcall(srv, other, oc, vset(&ua.PublishRequest{}, s.authenticationToken, 4), 4, 300*time.Millisecond)
	if len(rs) != 1 { t.Fatal("publish from another channel is accepted") }
	if f, ok := rs[0].res.(*ua.ServiceFault); !ok || f.ServiceResult != ua.BadSecureChannelIDInvalid { t.Fatalf("%+v", rs[0].res) }
}
''',["hsrv_test.go"])
