package server

import (
	"bytes"
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/binary"
	"encoding/pem"
	"fmt"
	"math/big"
	"net"
	"net/url"
	"os"
	"path/filepath"
	"reflect"
	"sync"
	"testing"
	"time"

	"github.com/awcullen/opcua/ua"
)

// In-process server harness: requests go to the real dispatcher, responses are decoded from the bytes the real
// secure channel writes.

func vcert() (*x509.Certificate, *rsa.PrivateKey, []byte) {
	key, err := rsa.GenerateKey(rand.Reader, 2048)
	if err != nil {
		panic(err)
	}
	u, _ := url.Parse("urn:verif:app")
	tmpl := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "verif"}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour), URIs: []*url.URL{u},
		KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageContentCommitment | x509.KeyUsageKeyEncipherment | x509.KeyUsageDataEncipherment}
	der, err := x509.CreateCertificate(rand.Reader, tmpl, tmpl, &key.PublicKey, key)
	if err != nil {
		panic(err)
	}
	c, _ := x509.ParseCertificate(der)
	return c, key, der
}

func vserver(t *testing.T, opts ...Option) *Server {
	dir := t.TempDir()
	_, key, der := vcert()
	os.WriteFile(filepath.Join(dir, "s.crt"), pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0600)
	os.WriteFile(filepath.Join(dir, "s.key"), pem.EncodeToMemory(&pem.Block{Type: "RSA PRIVATE KEY", Bytes: x509.MarshalPKCS1PrivateKey(key)}), 0600)
	opts = append([]Option{WithSecurityPolicyNone(true), WithInsecureSkipVerify(), WithAuthenticateAnonymousIdentityFunc(func(ua.AnonymousIdentity, string, string) error { return nil })}, opts...)
	srv, err := New(ua.ApplicationDescription{ApplicationURI: "urn:verif:server"}, filepath.Join(dir, "s.crt"), filepath.Join(dir, "s.key"), "opc.tcp://127.0.0.1:46999", opts...)
	if err != nil {
		t.Fatal(err)
	}
	return srv
}

type vresp struct {
	id  uint32
	res ua.ServiceResponse
	err error
}

type vconn struct {
	mu     sync.Mutex
	buf    []byte // complete message bodies under assembly
	out    []vresp
	seqs   []uint32
	raw    [][]byte
	closed bool
	abort  ua.StatusCode
	ctx    ua.EncodingContext
}

func (c *vconn) Read(b []byte) (int, error) { select {} }
func (c *vconn) Write(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	p := append([]byte{}, b...)
	c.raw = append(c.raw, p)
	if len(p) < 8 {
		c.out = append(c.out, vresp{err: fmt.Errorf("short chunk of %d bytes", len(p))})
		return len(b), nil
	}
	mt, sz := binary.LittleEndian.Uint32(p), binary.LittleEndian.Uint32(p[4:])
	if int(sz) != len(p) {
		c.out = append(c.out, vresp{err: fmt.Errorf("chunk of %d bytes announces %d", len(p), sz)})
		return len(b), nil
	}
	if mt == ua.MessageTypeError {
		if len(p) >= 12 {
			c.abort = ua.StatusCode(binary.LittleEndian.Uint32(p[8:]))
		}
		return len(b), nil
	}
	c.seqs = append(c.seqs, binary.LittleEndian.Uint32(p[16:]))
	id := binary.LittleEndian.Uint32(p[20:])
	c.buf = append(c.buf, p[24:]...)
	if mt == ua.MessageTypeFinal {
		res, err := vdecode(c.buf, c.ctx)
		c.buf = nil
		c.out = append(c.out, vresp{id, res, err})
	}
	return len(b), nil
}
func (c *vconn) Close() error                       { c.mu.Lock(); c.closed = true; c.mu.Unlock(); return nil }
func (c *vconn) LocalAddr() net.Addr                { return &net.TCPAddr{} }
func (c *vconn) RemoteAddr() net.Addr               { return &net.TCPAddr{} }
func (c *vconn) SetDeadline(t time.Time) error      { return nil }
func (c *vconn) SetReadDeadline(t time.Time) error  { return nil }
func (c *vconn) SetWriteDeadline(t time.Time) error { return nil }

func vdecode(b []byte, ctx ua.EncodingContext) (ua.ServiceResponse, error) {
	dec := ua.NewBinaryDecoder(bytes.NewReader(b), ctx)
	var id ua.NodeID
	if err := dec.ReadNodeID(&id); err != nil {
		return nil, err
	}
	for eid, mk := range vresponses {
		if eid == id {
			r := mk()
			return r, dec.Decode(r)
		}
	}
	return nil, fmt.Errorf("unknown response type %v", id)
}

var vresponses = map[ua.NodeID]func() ua.ServiceResponse{
	ua.ObjectIDServiceFaultEncodingDefaultBinary:                          func() ua.ServiceResponse { return new(ua.ServiceFault) },
	ua.ObjectIDReadResponseEncodingDefaultBinary:                          func() ua.ServiceResponse { return new(ua.ReadResponse) },
	ua.ObjectIDWriteResponseEncodingDefaultBinary:                         func() ua.ServiceResponse { return new(ua.WriteResponse) },
	ua.ObjectIDBrowseResponseEncodingDefaultBinary:                        func() ua.ServiceResponse { return new(ua.BrowseResponse) },
	ua.ObjectIDBrowseNextResponseEncodingDefaultBinary:                    func() ua.ServiceResponse { return new(ua.BrowseNextResponse) },
	ua.ObjectIDTranslateBrowsePathsToNodeIDsResponseEncodingDefaultBinary: func() ua.ServiceResponse { return new(ua.TranslateBrowsePathsToNodeIDsResponse) },
	ua.ObjectIDRegisterNodesResponseEncodingDefaultBinary:                 func() ua.ServiceResponse { return new(ua.RegisterNodesResponse) },
	ua.ObjectIDUnregisterNodesResponseEncodingDefaultBinary:               func() ua.ServiceResponse { return new(ua.UnregisterNodesResponse) },
	ua.ObjectIDHistoryReadResponseEncodingDefaultBinary:                   func() ua.ServiceResponse { return new(ua.HistoryReadResponse) },
	ua.ObjectIDCallResponseEncodingDefaultBinary:                          func() ua.ServiceResponse { return new(ua.CallResponse) },
	ua.ObjectIDCreateMonitoredItemsResponseEncodingDefaultBinary:          func() ua.ServiceResponse { return new(ua.CreateMonitoredItemsResponse) },
	ua.ObjectIDModifyMonitoredItemsResponseEncodingDefaultBinary:          func() ua.ServiceResponse { return new(ua.ModifyMonitoredItemsResponse) },
	ua.ObjectIDSetMonitoringModeResponseEncodingDefaultBinary:             func() ua.ServiceResponse { return new(ua.SetMonitoringModeResponse) },
	ua.ObjectIDSetTriggeringResponseEncodingDefaultBinary:                 func() ua.ServiceResponse { return new(ua.SetTriggeringResponse) },
	ua.ObjectIDDeleteMonitoredItemsResponseEncodingDefaultBinary:          func() ua.ServiceResponse { return new(ua.DeleteMonitoredItemsResponse) },
	ua.ObjectIDCreateSubscriptionResponseEncodingDefaultBinary:            func() ua.ServiceResponse { return new(ua.CreateSubscriptionResponse) },
	ua.ObjectIDModifySubscriptionResponseEncodingDefaultBinary:            func() ua.ServiceResponse { return new(ua.ModifySubscriptionResponse) },
	ua.ObjectIDSetPublishingModeResponseEncodingDefaultBinary:             func() ua.ServiceResponse { return new(ua.SetPublishingModeResponse) },
	ua.ObjectIDDeleteSubscriptionsResponseEncodingDefaultBinary:           func() ua.ServiceResponse { return new(ua.DeleteSubscriptionsResponse) },
	ua.ObjectIDPublishResponseEncodingDefaultBinary:                       func() ua.ServiceResponse { return new(ua.PublishResponse) },
	ua.ObjectIDRepublishResponseEncodingDefaultBinary:                     func() ua.ServiceResponse { return new(ua.RepublishResponse) },
	ua.ObjectIDCreateSessionResponseEncodingDefaultBinary:                 func() ua.ServiceResponse { return new(ua.CreateSessionResponse) },
	ua.ObjectIDActivateSessionResponseEncodingDefaultBinary:               func() ua.ServiceResponse { return new(ua.ActivateSessionResponse) },
	ua.ObjectIDCloseSessionResponseEncodingDefaultBinary:                  func() ua.ServiceResponse { return new(ua.CloseSessionResponse) },
	ua.ObjectIDCancelResponseEncodingDefaultBinary:                        func() ua.ServiceResponse { return new(ua.CancelResponse) },
	ua.ObjectIDGetEndpointsResponseEncodingDefaultBinary:                  func() ua.ServiceResponse { return new(ua.GetEndpointsResponse) },
	ua.ObjectIDFindServersResponseEncodingDefaultBinary:                   func() ua.ServiceResponse { return new(ua.FindServersResponse) },
}

// vchan opens an unsecured channel on the server without a network connection.
func vchan(srv *Server) (*serverSecureChannel, *vconn) {
	c := &vconn{}
	ch := newServerSecureChannel(srv, c, false)
	c.ctx = ch
	ch.sendBuffer = make([]byte, ch.sendBufferSize)
	ch.encryptionBuffer = make([]byte, ch.sendBufferSize)
	ch.receiveBuffer = make([]byte, ch.receiveBufferSize)
	ch.tokenID = 1
	ch.securityMode = ua.MessageSecurityModeNone
	for _, ep := range srv.Endpoints() {
		if ep.SecurityPolicyURI == ua.SecurityPolicyURINone {
			ch.localEndpoint = ep
		}
	}
	return ch, c
}

var vtok uint32 = 1000

// vsession registers a session; it is bound to ch unless ch is nil.
func vsession(srv *Server, ch *serverSecureChannel) *Session {
	vtok++
	s := NewSession(srv, ua.NewNodeIDNumeric(1, vtok), fmt.Sprint("s", vtok), ua.NewNodeIDNumeric(0, vtok), ua.ByteString("nonce"), 60000, ua.ApplicationDescription{ApplicationURI: "urn:verif:client"}, "", "", "", 0)
	if ch != nil {
		s.SetUserIdentity(ua.AnonymousIdentity{})
		s.SetSecureChannelId(ch.channelID)
	}
	if err := srv.SessionManager().Add(s); err != nil {
		panic(err)
	}
	return s
}

// vcall sends one request through the dispatcher and returns the responses written within the wait.
func vcall(srv *Server, ch *serverSecureChannel, c *vconn, req ua.ServiceRequest, id uint32, wait time.Duration) []vresp {
	c.mu.Lock()
	n := len(c.out)
	c.mu.Unlock()
	srv.handleRequest(ch, req, id)
	end := time.Now().Add(wait)
	for {
		c.mu.Lock()
		m, cl := len(c.out), c.closed
		c.mu.Unlock()
		if m > n || cl || time.Now().After(end) {
			break
		}
		time.Sleep(200 * time.Microsecond)
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]vresp{}, c.out[n:]...)
}

func vset(req ua.ServiceRequest, tok ua.NodeID, handle uint32) ua.ServiceRequest {
	h := reflect.ValueOf(req).Elem().FieldByName("RequestHeader")
	h.Set(reflect.ValueOf(ua.RequestHeader{AuthenticationToken: tok, RequestHandle: handle, Timestamp: time.Now()}))
	return req
}

func vrequests(subID uint32) []ua.ServiceRequest {
	st := ua.VariableIDServerServerStatusCurrentTime
	return []ua.ServiceRequest{
		&ua.CancelRequest{},
		&ua.BrowseRequest{NodesToBrowse: []ua.BrowseDescription{{NodeID: ua.ObjectIDObjectsFolder, BrowseDirection: ua.BrowseDirectionForward, ResultMask: 63}}},
		&ua.BrowseNextRequest{ContinuationPoints: []ua.ByteString{"abcd"}},
		&ua.TranslateBrowsePathsToNodeIDsRequest{BrowsePaths: []ua.BrowsePath{{StartingNode: ua.ObjectIDObjectsFolder, RelativePath: ua.RelativePath{Elements: []ua.RelativePathElement{{ReferenceTypeID: ua.ReferenceTypeIDOrganizes, TargetName: ua.NewQualifiedName(0, "Server")}}}}}},
		&ua.RegisterNodesRequest{NodesToRegister: []ua.NodeID{ua.ObjectIDServer}},
		&ua.UnregisterNodesRequest{NodesToUnregister: []ua.NodeID{ua.ObjectIDServer}},
		&ua.ReadRequest{TimestampsToReturn: ua.TimestampsToReturnBoth, NodesToRead: []ua.ReadValueID{{NodeID: st, AttributeID: ua.AttributeIDValue}}},
		&ua.WriteRequest{NodesToWrite: []ua.WriteValue{{NodeID: st, AttributeID: ua.AttributeIDValue, Value: ua.NewDataValue(int32(1), 0, time.Time{}, 0, time.Time{}, 0)}}},
		&ua.HistoryReadRequest{TimestampsToReturn: ua.TimestampsToReturnBoth, HistoryReadDetails: ua.ReadRawModifiedDetails{}, NodesToRead: []ua.HistoryReadValueID{{NodeID: st}}},
		&ua.CallRequest{MethodsToCall: []ua.CallMethodRequest{{ObjectID: ua.ObjectIDServer, MethodID: ua.MethodIDServerGetMonitoredItems}}},
		&ua.CreateSubscriptionRequest{RequestedPublishingInterval: 1000, RequestedLifetimeCount: 30, RequestedMaxKeepAliveCount: 10},
		&ua.CreateMonitoredItemsRequest{SubscriptionID: subID, TimestampsToReturn: ua.TimestampsToReturnBoth, ItemsToCreate: []ua.MonitoredItemCreateRequest{{ItemToMonitor: ua.ReadValueID{NodeID: st, AttributeID: ua.AttributeIDValue}, MonitoringMode: ua.MonitoringModeReporting, RequestedParameters: ua.MonitoringParameters{ClientHandle: 1, SamplingInterval: 1000, QueueSize: 1}}}},
		&ua.ModifyMonitoredItemsRequest{SubscriptionID: subID, TimestampsToReturn: ua.TimestampsToReturnBoth, ItemsToModify: []ua.MonitoredItemModifyRequest{{MonitoredItemID: 1}}},
		&ua.SetMonitoringModeRequest{SubscriptionID: subID, MonitoringMode: ua.MonitoringModeDisabled, MonitoredItemIDs: []uint32{1}},
		&ua.SetTriggeringRequest{SubscriptionID: subID, TriggeringItemID: 1, LinksToAdd: []uint32{2}},
		&ua.DeleteMonitoredItemsRequest{SubscriptionID: subID, MonitoredItemIDs: []uint32{1}},
		&ua.ModifySubscriptionRequest{SubscriptionID: subID, RequestedPublishingInterval: 1000, RequestedLifetimeCount: 30, RequestedMaxKeepAliveCount: 10},
		&ua.SetPublishingModeRequest{SubscriptionIDs: []uint32{subID}},
		&ua.RepublishRequest{SubscriptionID: subID, RetransmitSequenceNumber: 1},
		&ua.PublishRequest{},
		&ua.DeleteSubscriptionsRequest{SubscriptionIDs: []uint32{subID}},
		&ua.CloseSessionRequest{DeleteSubscriptions: true},
	}
}
