import sys; sys.path.insert(0,"/verif/tools")
from mkseed import make
f=lambda ch,fn,fld: f"func (ch *{ch}) {fn}() uint32 {{\n\tfor {{\n\t\told := atomic.LoadUint32(&ch.{fld})\n\t\tnew := old\n\t\tif new == math.MaxUint32 {{\n\t\t\tnew = 0\n\t\t}}\n\t\tnew++\n\t\tif atomic.CompareAndSwapUint32(&ch.{fld}, old, new) {{\n\t\t\treturn new\n\t\t}}\n\t}}\n}}\n"
make("c07-client-wrap1024","C07",[["client/client_secure_channel.go",f("clientSecureChannel","getNextSequenceNumber","sequenceNumber"),f("clientSecureChannel","getNextSequenceNumber","sequenceNumber").replace("new == math.MaxUint32","new >= math.MaxUint32-1024")]],
 "a client channel that has sent 2^32-1024 chunks","the sequence restarts 1024 numbers early, so the peer sees a gap","client",'''package client
import ("math";"testing")
func TestDemo(t *testing.T) {
	ch := &clientSecureChannel{sequenceNumber: math.MaxUint32 - 1000}
	if n := ch.getNextSequenceNumber(); n != math.MaxUint32-999 { t.Fatal(n) }
}
''')
make("c07-server-cas","C07",[["server/server_secure_channel.go",f("serverSecureChannel","getNextSequenceNumber","lastSequenceNumber"),"""func (ch *serverSecureChannel) getNextSequenceNumber() uint32 {
	if n := atomic.AddUint32(&ch.lastSequenceNumber, 1); n != 0 {
		return n
	}
	atomic.StoreUint32(&ch.lastSequenceNumber, 1)
	return atomic.LoadUint32(&ch.lastSequenceNumber)
}
"""]],
 "two writers at the moment the sequence number wraps","both writers are given the sequence number 1","server",'''package server
import ("math";"sync";"testing")
func TestDemo(t *testing.T) {
	for k := 0; k < 20000; k++ {
		ch := &serverSecureChannel{lastSequenceNumber: math.MaxUint32 - 4}
		var wg sync.WaitGroup
		res := make([][]uint32, 8)
		start := make(chan struct{})
		for i := range res {
			wg.Add(1)
			go func() { defer wg.Done(); <-start; for j := 0; j < 4; j++ { res[i] = append(res[i], ch.getNextSequenceNumber()) } }()
		}
		close(start)
		wg.Wait()
		seen := map[uint32]bool{}
		for _, r := range res { for _, n := range r { if n == 0 || seen[n] { t.Fatalf("round %d: %d assigned twice", k, n) }; seen[n] = true } }
	}
}
''')
